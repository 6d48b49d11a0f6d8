//! Reader for textual LLVM IR.  Functions are parsed on first use into a
//! compact form over numbered scalar slots (aggregates and vectors are
//! flattened).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Vec(u64, Box<Ty>), Label, Meta }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(_, _) => self.size().next_power_of_two().min(16).max(1),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = b.next_power_of_two().min(16); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts { if !*packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !*packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(n, t) => match **t { Ty::Int(w) if w < 8 => (n * w as u64 + 7) / 8, _ => n * t.size() },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self { Ty::Struct(ts, _) => &ts[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("elem of scalar {:?}", self) }
    }
    pub fn scalars(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => out.push((base, *w)),
            Ty::Ptr | Ty::F64 => out.push((base, 64)),
            Ty::F32 => out.push((base, 32)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => for i in 0..*n { t.scalars(base + i * t.size(), out) },
            Ty::Struct(ts, _) => for i in 0..ts.len() { ts[i].scalars(base + self.field_off(i), out) },
            _ => {}
        }
    }
    pub fn flat(&self) -> Vec<(u64, u32)> { let mut v = vec![]; self.scalars(0, &mut v); v }
    pub fn count(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.count(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.count()).sum(),
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(_, t) => t.width(), _ => 0 }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Opd { C(u128), S(u32) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FToSI, FToUI, SIToF, UIToF, FTrunc, FExt }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, UMax, UMin, Max, Min }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(Rc<str>), Ptr(Opd), Asm(Rc<str>) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, dst: u32, ab: Box<[(Opd, Opd)]> },
    Icmp { p: Pred, w: u32, dst: u32, ab: Box<[(Opd, Opd)]> },
    Fcmp { p: u8, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: u32, to: u32, dst: u32, a: Box<[Opd]> },
    Select { w: Box<[u32]>, dst: u32, c: Box<[Opd]>, ab: Box<[(Opd, Opd)]> },
    Move { dst: u32, src: Box<[Opd]> },
    Repack { dst: u32, dw: Box<[u32]>, src: Box<[(Opd, u32)]> },
    ExtractElt { dst: u32, src: Box<[Opd]>, idx: Opd },
    InsertElt { dst: u32, src: Box<[Opd]>, val: Opd, idx: Opd },
    Load { dst: u32, ptr: Opd, parts: Box<[(u64, u32)]> },
    Store { ptr: Opd, parts: Box<[(u64, u32, Opd)]> },
    Gep { dst: u32, base: Opd, off: u64, terms: Box<[(Opd, u32, u64)]> },
    Alloca { dst: u32, off: u64 },
    AllocaDyn { dst: u32, elem: u64, n: Opd },
    Call { dst: u32, dw: Box<[u32]>, callee: Callee, args: Box<[Box<[(Opd, u32)]>]>, next: u32 },
    Rmw { op: Rmw, w: u32, dst: u32, ptr: Opd, v: Opd },
    CmpXchg { w: u32, dst: u32, ptr: Opd, a: Opd, b: Opd },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Box<[(u128, u32)]>),
    Ret(Box<[Opd]>),
    Unreachable,
    Nop,
    Bad(Rc<str>),
}

pub struct Block { pub insts: Vec<Inst>, pub dbg: Vec<u32>, pub phis: Vec<(u32, Vec<(u32, Opd)>)> }

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nslots: u32,
    pub params: Vec<(u32, u32)>, // slot, count
    pub frame: u64,
    pub blocks: Vec<Block>,
}

pub struct Glob { pub name: String, pub ty: Ty, pub init: Option<(usize, usize)>, pub constant: bool }

pub struct Module {
    pub text: &'static [u8],
    pub fn_names: Vec<String>,
    pub fn_src: Vec<(usize, usize)>,
    pub fn_id: HashMap<String, u32>,
    pub globs: Vec<Glob>,
    pub glob_id: HashMap<String, u32>,
    pub declared: HashMap<String, u32>,
    pub declared_names: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub meta: Vec<(u32, u32)>,
    pub funcs: Vec<Option<Rc<Func>>>,
}

pub const FN_BASE: u64 = 1;
pub const EXT_BASE: u64 = 0x8000;
pub const GLOB_BASE: u64 = 0x10000;
pub const HEAP_BASE: u64 = 0x100000;
pub const STACK_BASE: u64 = 0x8000000;
pub const SHIFT: u32 = 24;

pub struct P<'a> { pub s: &'a [u8], pub i: usize }

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' }

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> Self { P { s, i: 0 } }
    pub fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1 } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn need(&mut self, c: u8) { if !self.eat(c) { panic!("expected {:?} at {:?}", c as char, String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(120).collect::<String>()) } }
    pub fn word_peek(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && idc(self.s[j]) { j += 1 }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    pub fn word(&mut self) -> &'a str { let w = self.word_peek(); self.i += w.len(); w }
    pub fn number(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (idc(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1 }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn kw(&mut self, k: &str) -> bool { if self.word_peek() == k { self.i += k.len(); true } else { false } }
    pub fn name(&mut self) -> String {
        // after % or @
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' { j += 1 }
            self.i = j + 1;
            return String::from_utf8_lossy(&self.s[st..j]).to_string();
        }
        let st = self.i;
        while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1 }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    pub fn skip_group(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn type_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'<' || c == b'[' || c == b'%' { return true; }
        let w = self.word_peek();
        if w == "void" || w == "ptr" || w == "float" || w == "double" || w == "metadata" || w == "label" { return true; }
        w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit())
    }
    pub fn int(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| w.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int {:?}", w)))
    }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }

pub fn parse_ty(m: &HashMap<String, Ty>, p: &mut P) -> Ty {
    let c = p.peek();
    match c {
        b'{' => {
            p.i += 1;
            let mut v = vec![];
            if !p.eat(b'}') { loop { v.push(parse_ty(m, p)); if p.eat(b'}') { break; } p.need(b','); } }
            Ty::Struct(v, false)
        }
        b'<' => {
            p.i += 1;
            if p.peek() == b'{' {
                let t = parse_ty(m, p);
                p.need(b'>');
                if let Ty::Struct(v, _) = t { Ty::Struct(v, true) } else { unreachable!() }
            } else {
                let n = p.int() as u64;
                assert!(p.kw("x"));
                let t = parse_ty(m, p);
                p.need(b'>');
                Ty::Vec(n, Box::new(t))
            }
        }
        b'[' => {
            p.i += 1;
            let n = p.int() as u64;
            assert!(p.kw("x"));
            let t = parse_ty(m, p);
            p.need(b']');
            Ty::Arr(n, Box::new(t))
        }
        b'%' => { p.i += 1; let n = p.name(); m.get(&n).unwrap_or_else(|| panic!("type {}", n)).clone() }
        _ => {
            let w = p.word();
            match w {
                "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" => Ty::Meta,
                _ if w.starts_with('i') && w.len() > 1 => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {:?}", w))),
                _ => panic!("type {:?} in {:?}", w, String::from_utf8_lossy(p.s)),
            }
        }
    }
}

impl Module {
    pub fn load(text: &'static [u8]) -> Module {
        let mut m = Module { text, fn_names: vec![], fn_src: vec![], fn_id: HashMap::new(), globs: vec![], glob_id: HashMap::new(),
            declared: HashMap::new(), declared_names: vec![], types: HashMap::new(), meta: vec![], funcs: vec![] };
        let mut i = 0;
        let n = text.len();
        let mut pend_globs: Vec<(usize, usize)> = vec![];
        let mut pend_types: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(usize, usize)> = vec![];
        let eol = |i: usize| -> usize { let mut j = i; while j < n && text[j] != b'\n' { j += 1 } j };
        while i < n {
            let e = eol(i);
            let l = &text[i..e];
            if l.starts_with(b"define") {
                let at = l.iter().position(|c| *c == b'@').unwrap();
                let mut p = P { s: l, i: at + 1 };
                let name = p.name();
                let id = m.fn_names.len() as u32;
                let st = i;
                let mut k = e + 1;
                loop { let e2 = eol(k); if text[k..e2] == b"}"[..] { i = e2 + 1; m.fn_src.push((st, k)); break; } k = e2 + 1; }
                m.fn_id.insert(name.clone(), id);
                m.fn_names.push(name);
                continue;
            } else if l.starts_with(b"@") {
                let has_alias = { let mut p = P::new(l); p.i = 1; p.name(); p.ws(); String::from_utf8_lossy(&l[p.i..]).contains(" alias ") && !String::from_utf8_lossy(&l[p.i..]).contains(" constant ") && !String::from_utf8_lossy(&l[p.i..]).contains(" global ") };
                if has_alias { aliases.push((i, e)) } else { pend_globs.push((i, e)) }
            } else if l.starts_with(b"declare") {
                let at = l.iter().position(|c| *c == b'@').unwrap();
                let mut p = P { s: l, i: at + 1 };
                let name = p.name();
                let id = m.declared_names.len() as u32;
                m.declared.insert(name.clone(), id);
                m.declared_names.push(name);
            } else if l.starts_with(b"%") && l.windows(8).any(|w| w == b" = type ") {
                pend_types.push((i, e));
            } else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let mut k = 1;
                let mut num = 0usize;
                while l[k].is_ascii_digit() { num = num * 10 + (l[k] - b'0') as usize; k += 1 }
                while m.meta.len() <= num { m.meta.push((0, 0)) }
                m.meta[num] = ((i + k + 3) as u32, e as u32);
            }
            i = e + 1;
        }
        for (a, b) in pend_types {
            let mut p = P { s: &text[a..b], i: 1 };
            let nm = p.name();
            p.need(b'='); p.kw("type");
            if p.word_peek() == "opaque" { m.types.insert(nm, Ty::Int(8)); continue; }
            let t = parse_ty(&m.types, &mut p);
            m.types.insert(nm, t);
        }
        for (a, b) in pend_globs {
            let mut p = P { s: &text[a..b], i: 1 };
            let name = p.name();
            p.need(b'=');
            let mut ext = false;
            let constant;
            loop {
                if p.kw("global") { constant = false; break; }
                if p.kw("constant") { constant = true; break; }
                let w = p.word();
                if w == "external" || w == "extern_weak" { ext = true; }
                if p.peek() == b'(' { p.skip_group(); }
                if w.is_empty() { panic!("global {:?}", String::from_utf8_lossy(p.s)); }
            }
            let ty = parse_ty(&m.types, &mut p);
            p.ws();
            let id = m.globs.len() as u32;
            m.glob_id.insert(name.clone(), id);
            m.globs.push(Glob { name, ty, init: if ext { None } else { Some((a + p.i, b)) }, constant });
        }
        for (a, b) in aliases {
            let l = &text[a..b];
            let mut p = P { s: l, i: 1 };
            let name = p.name();
            let at = l.iter().rposition(|c| *c == b'@').unwrap();
            let mut q = P { s: l, i: at + 1 };
            let tgt = q.name();
            if let Some(f) = m.fn_id.get(&tgt).copied() { m.fn_id.insert(name, f); }
            else if let Some(g) = m.glob_id.get(&tgt).copied() { m.glob_id.insert(name, g); }
        }
        m.funcs = m.fn_names.iter().map(|_| None).collect();
        m
    }

    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(f) = self.fn_id.get(name) { return (FN_BASE + *f as u64) << SHIFT; }
        if let Some(g) = self.glob_id.get(name) { return (GLOB_BASE + *g as u64) << SHIFT; }
        if let Some(d) = self.declared.get(name) { return (EXT_BASE + *d as u64) << SHIFT; }
        panic!("unknown symbol @{}", name)
    }

    /// constant of type `ty`, flattened
    pub fn constant(&self, p: &mut P, ty: &Ty, out: &mut Vec<u128>) {
        let c = p.peek();
        match c {
            b'@' => { p.i += 1; let n = p.name(); out.push(self.sym_addr(&n) as u128); }
            b'{' | b'[' => {
                p.i += 1;
                let close = if c == b'{' { b'}' } else { b']' };
                if !p.eat(close) { loop { let t = parse_ty(&self.types, p); self.constant(p, &t, out); if p.eat(close) { break; } p.need(b','); } }
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' { self.constant(p, ty, out); p.need(b'>'); }
                else { loop { let t = parse_ty(&self.types, p); self.constant(p, &t, out); if p.eat(b'>') { break; } p.need(b','); } }
            }
            _ => {
                if c == b'c' && p.i + 1 < p.s.len() && p.s[p.i + 1] == b'"' {
                    p.i += 2;
                    while p.s[p.i] != b'"' {
                        if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' { out.push(b'\\' as u128); p.i += 2; }
                        else if p.s[p.i] == b'\\' {
                            let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                            out.push(u8::from_str_radix(h, 16).unwrap() as u128);
                            p.i += 3;
                        } else { out.push(p.s[p.i] as u128); p.i += 1; }
                    }
                    p.i += 1;
                    return;
                }
                let w = p.word_peek();
                match w {
                    "null" | "undef" | "poison" | "zeroinitializer" | "none" => { p.word(); for _ in 0..ty.count() { out.push(0) } }
                    "true" => { p.word(); out.push(1) }
                    "false" => { p.word(); out.push(0) }
                    "splat" => {
                        p.word(); p.need(b'(');
                        let t = parse_ty(&self.types, p);
                        let mut v = vec![]; self.constant(p, &t, &mut v); p.need(b')');
                        for _ in 0..(ty.count() / v.len().max(1)) { out.extend_from_slice(&v) }
                    }
                    "inttoptr" | "ptrtoint" | "trunc" | "zext" | "sext" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                        p.word(); p.need(b'(');
                        let t = parse_ty(&self.types, p);
                        let mut v = vec![]; self.constant(p, &t, &mut v);
                        assert!(p.kw("to"));
                        let t2 = parse_ty(&self.types, p);
                        p.need(b')');
                        let mut x = v[0];
                        if w == "sext" { let sh = 128 - t.width(); x = (((x << sh) as i128) >> sh) as u128; }
                        out.push(x & mask(t2.width()));
                    }
                    "getelementptr" => {
                        p.word();
                        while p.peek() != b'(' { if p.kw("inrange") { p.ws(); p.skip_group(); } else { p.word(); } }
                        p.need(b'(');
                        let t = parse_ty(&self.types, p);
                        let mut idx: Vec<i128> = vec![]; let mut base = 0u128; let mut first = true;
                        while p.eat(b',') {
                            let it = parse_ty(&self.types, p);
                            let mut v = vec![]; self.constant(p, &it, &mut v);
                            if first { base = v[0]; first = false; } else { let w = it.width(); let sh = 128 - w; idx.push(((v[0] << sh) as i128) >> sh); }
                        }
                        p.need(b')');
                        let mut cur = t.clone();
                        let mut off = 0i128;
                        for (k, i) in idx.iter().enumerate() {
                            if k == 0 { off += i * cur.size() as i128; } else {
                                off += if let Ty::Struct(..) = cur { cur.field_off(*i as usize) as i128 } else { *i * cur.elem(0).size() as i128 };
                                cur = cur.elem(*i as usize).clone();
                            }
                        }
                        out.push((base.wrapping_add(off as u128)) & mask(64));
                    }
                    "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                        p.word();
                        while p.peek() != b'(' { p.word(); }
                        p.need(b'(');
                        let t = parse_ty(&self.types, p);
                        let mut a = vec![]; self.constant(p, &t, &mut a); p.need(b',');
                        let t2 = parse_ty(&self.types, p);
                        let mut b = vec![]; self.constant(p, &t2, &mut b); p.need(b')');
                        let (a, b) = (a[0], b[0]);
                        let r = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "shl" => a << b, _ => a >> b };
                        out.push(r & mask(t.width()));
                    }
                    _ => {
                        let w = if matches!(ty, Ty::F64 | Ty::F32) { p.number() } else { p.word() };
                        match ty {
                            Ty::F64 => out.push(fconst(w, false)),
                            Ty::F32 => out.push(fconst(w, true)),
                            Ty::Vec(_, t) if false => { let _ = t; }
                            _ => {
                                let v = w.parse::<i128>().map(|x| x as u128).or_else(|_| w.parse::<u128>()).unwrap_or_else(|_| panic!("constant {:?} of {:?} in {:?}", w, ty, String::from_utf8_lossy(&p.s[..p.s.len().min(300)])));
                                out.push(v & mask(ty.width()));
                            }
                        }
                    }
                }
            }
        }
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize] { return f.clone(); }
        let f = Rc::new(self.parse_fn(id));
        self.funcs[id as usize] = Some(f.clone());
        f
    }

    fn parse_fn(&self, id: u32) -> Func {
        let (a, b) = self.fn_src[id as usize];
        let body = &self.text[a..b];
        // logical lines
        let mut lines: Vec<&[u8]> = vec![];
        let mut i = 0;
        let eol = |i: usize| -> usize { let mut j = i; while j < body.len() && body[j] != b'\n' { j += 1 } j };
        while i < body.len() {
            let e = eol(i);
            let l = &body[i..e];
            let t = l.iter().position(|c| *c != b' ').unwrap_or(l.len());
            let tl = &l[t..];
            if tl.is_empty() || tl[0] == b';' { i = e + 1; continue; }
            let is_invoke = contains(tl, b"invoke ") && (tl.starts_with(b"invoke") || contains(tl, b" = invoke "));
            if is_invoke { let e2 = eol(e + 1); lines.push(&body[i..e2]); i = e2 + 1; continue; }
            if tl.starts_with(b"switch ") && tl.last() == Some(&b'[') {
                let mut e2 = e;
                loop { let ee = eol(e2 + 1); let x = &body[e2 + 1..ee]; e2 = ee; let y = x.iter().position(|c| *c != b' ').unwrap_or(0); if x.len() > y && x[y] == b']' { break; } }
                lines.push(&body[i..e2]); i = e2 + 1; continue;
            }
            if tl.starts_with(b"cleanup") || tl.starts_with(b"catch ") || tl.starts_with(b"filter ") || tl.starts_with(b"#dbg") { i = e + 1; continue; }
            lines.push(l);
            i = e + 1;
        }
        let mut fp = FP { m: self, slots: HashMap::new(), nslots: 0, blocks: HashMap::new(), frame: 0, pass: 0 };
        // header
        let hdr = lines[0];
        let mut p = P::new(hdr);
        p.kw("define");
        let at = hdr.iter().position(|c| *c == b'@').unwrap();
        p.i = at + 1;
        p.name();
        p.need(b'(');
        let mut params = vec![];
        let mut pn = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' { p.word(); p.need(b')'); break; }
                let t = parse_ty(&self.types, &mut p);
                let c = t.count() as u32;
                let mut nm = None;
                loop {
                    let ch = p.peek();
                    if ch == b'%' { p.i += 1; nm = Some(p.name()); break; }
                    if ch == b',' || ch == b')' { break; }
                    if ch == b'(' { p.skip_group(); continue; }
                    let w = p.word();
                    if w.is_empty() { p.i += 1; }
                }
                let nm = nm.unwrap_or_else(|| pn.to_string());
                if nm.bytes().all(|c| c.is_ascii_digit()) { pn += 1; }
                let s = fp.nslots;
                fp.slots.insert(nm, (s, c));
                fp.nslots += c;
                params.push((s, c));
                if p.eat(b')') { break; }
                p.need(b',');
            }
        }
        // block names
        let mut nb = 0u32;
        let mut has_entry_label = false;
        for (k, l) in lines[1..].iter().enumerate() {
            if l[0] != b' ' {
                let nm = label_name(l);
                if k == 0 { has_entry_label = true; }
                if k > 0 && nb == 0 && !has_entry_label { fp.blocks.insert(pn.to_string(), 0); nb = 1; }
                fp.blocks.insert(nm, nb);
                nb += 1;
            }
        }
        if nb == 0 { fp.blocks.insert("".into(), 0); nb = 1; }
        let _ = nb;
        // pass 1: slots
        for l in &lines[1..] {
            if l[0] != b' ' { continue; }
            let mut p = P::new(l);
            if p.peek() == b'%' {
                p.i += 1;
                let nm = p.name();
                p.need(b'=');
                let n = fp.result_count(&mut p);
                let s = fp.nslots;
                fp.slots.insert(nm, (s, n as u32));
                fp.nslots += n as u32;
            }
        }
        fp.pass = 1;
        let mut blocks: Vec<Block> = vec![];
        if !has_entry_label { blocks.push(Block { insts: vec![], dbg: vec![], phis: vec![] }) }
        for l in &lines[1..] {
            if l[0] != b' ' { blocks.push(Block { insts: vec![], dbg: vec![], phis: vec![] }); continue; }
            let dbg = dbg_of(l);
            let (inst, phi) = fp.inst(l);
            let b = blocks.last_mut().unwrap();
            for ph in phi { b.phis.push(ph) }
            if let Some(inst) = inst { b.insts.push(inst); b.dbg.push(dbg); }
        }
        Func { id, name: self.fn_names[id as usize].clone(), nslots: fp.nslots, params, frame: fp.frame, blocks }
    }
}

fn contains(h: &[u8], n: &[u8]) -> bool { h.windows(n.len()).any(|w| w == n) }

fn label_name(l: &[u8]) -> String {
    if l[0] == b'"' { let e = l[1..].iter().position(|c| *c == b'"').unwrap(); return String::from_utf8_lossy(&l[1..1 + e]).to_string(); }
    let e = l.iter().position(|c| *c == b':').unwrap();
    String::from_utf8_lossy(&l[..e]).to_string()
}

fn dbg_of(l: &[u8]) -> u32 {
    let pat = b"!dbg !";
    let mut i = l.len();
    while i >= pat.len() {
        if &l[i - pat.len()..i] == pat {
            let mut n = 0u32;
            let mut k = i;
            while k < l.len() && l[k].is_ascii_digit() { n = n * 10 + (l[k] - b'0') as u32; k += 1 }
            return n;
        }
        i -= 1;
    }
    0
}

fn fconst(w: &str, f32_: bool) -> u128 {
    let w = match w { "+inf" => "inf", "+qnan" | "-qnan" | "qnan" => "nan", w => w };
    let w = w.strip_prefix("f").filter(|r| r.starts_with("0x")).unwrap_or(w);
    let d = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { w.parse::<f64>().unwrap_or_else(|_| panic!("float {:?}", w)) };
    if f32_ { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }
}

struct FP<'m> { m: &'m Module, slots: HashMap<String, (u32, u32)>, nslots: u32, blocks: HashMap<String, u32>, frame: u64, pass: u32 }

impl<'m> FP<'m> {
    fn ty(&self, p: &mut P) -> Ty { parse_ty(&self.m.types, p) }
    fn skip_to_type(&self, p: &mut P) {
        loop {
            if p.type_start() { return; }
            if p.peek() == b'(' { p.skip_group(); continue; }
            let w = p.word();
            if w.is_empty() { p.i += 1; if p.i >= p.s.len() { panic!("no type in {:?}", String::from_utf8_lossy(p.s)) } }
            if w == "addrspace" { p.ws(); p.skip_group(); }
        }
    }
    fn result_count(&self, p: &mut P) -> usize {
        let op = p.word();
        match op {
            "tail" | "musttail" | "notail" => { p.word(); self.skip_to_type(p); self.ty(p).count() }
            "call" | "invoke" => { self.skip_to_type(p); self.ty(p).count() }
            "load" => { p.kw("atomic"); p.kw("volatile"); self.ty(p).count() }
            "alloca" | "getelementptr" => 1,
            "icmp" | "fcmp" => { self.skip_to_type(p); match self.ty(p) { Ty::Vec(n, _) => n as usize, _ => 1 } }
            "cmpxchg" => 2,
            "atomicrmw" => 1,
            "extractvalue" => {
                let mut t = self.ty(p);
                self.skip_operand(p, &t);
                while p.eat(b',') { if p.peek() == b'!' { break; } let i = p.int() as usize; t = t.elem(i).clone(); }
                t.count()
            }
            "extractelement" => match self.ty(p) { Ty::Vec(_, t) => t.count(), _ => 1 },
            "insertvalue" | "insertelement" | "freeze" | "phi" => { self.skip_to_type(p); self.ty(p).count() }
            "shufflevector" => {
                let t = self.ty(p);
                self.skip_operand(p, &t); p.need(b',');
                let t2 = self.ty(p); self.skip_operand(p, &t2); p.need(b',');
                match self.ty(p) { Ty::Vec(n, _) => n as usize, _ => panic!() }
            }
            "select" => { self.skip_to_type(p); let t = self.ty(p); self.skip_operand(p, &t); p.need(b','); self.ty(p).count() }
            "landingpad" => self.ty(p).count(),
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fptrunc" | "fpext" => {
                self.skip_to_type(p);
                let t = self.ty(p);
                self.skip_operand(p, &t);
                if !p.kw("to") { panic!("cast {:?}", String::from_utf8_lossy(p.s)) }
                self.ty(p).count()
            }
            _ => { self.skip_to_type(p); self.ty(p).count() }
        }
    }
    fn skip_operand(&self, p: &mut P, t: &Ty) { let _ = self.opd(p, t); }

    fn opd(&self, p: &mut P, t: &Ty) -> Vec<Opd> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            if self.pass == 0 { return vec![]; }
            let (s, c) = *self.slots.get(&n).unwrap_or_else(|| panic!("unknown local %{} in {:?}", n, String::from_utf8_lossy(p.s)));
            return (0..c).map(|k| Opd::S(s + k)).collect();
        }
        if p.peek() == b'!' { p.i += 1; p.word(); if p.peek() == b'(' { p.skip_group(); } return vec![]; }
        let mut v = vec![];
        self.m.constant(p, t, &mut v);
        v.into_iter().map(Opd::C).collect()
    }
    fn tv(&self, p: &mut P) -> (Ty, Vec<Opd>) {
        let t = self.ty(p);
        // parameter attributes
        loop {
            let c = p.peek();
            if c == b'%' || c == b'@' || c == b'{' || c == b'<' || c == b'[' || c == b'!' || c == b'-' || c == b'+' || c.is_ascii_digit() { break; }
            let w = p.word_peek();
            match w {
                "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "splat" | "none" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "zext" | "sext" | "getelementptr" | "sub" | "add" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "bitcast" => break,
                "c" => break,
                "align" => { p.word(); p.word(); }
                "" => panic!("operand in {:?}", String::from_utf8_lossy(p.s)),
                _ => { p.word(); if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_group(); } }
            }
        }
        let o = self.opd(p, &t);
        (t, o)
    }
    fn label(&self, p: &mut P) -> u32 {
        if !p.kw("label") { panic!("label in {:?}", String::from_utf8_lossy(p.s)) }
        p.need(b'%');
        let n = p.name();
        *self.blocks.get(&n).unwrap_or_else(|| panic!("block {}", n))
    }

    fn inst(&mut self, l: &[u8]) -> (Option<Inst>, Vec<(u32, Vec<(u32, Opd)>)>) {
        let mut p = P::new(l);
        let mut dst = 0u32;
        let mut dcount = 0u32;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            p.need(b'=');
            let (s, c) = self.slots[&n];
            dst = s; dcount = c;
        }
        let op = p.word();
        let bad = |l: &[u8]| (Some(Inst::Bad(Rc::from(String::from_utf8_lossy(l).to_string()))), vec![]);
        let bin = match op {
            "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv), "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem), "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor), "fadd" => Some(Bin::FAdd), "fsub" => Some(Bin::FSub), "fmul" => Some(Bin::FMul), "fdiv" => Some(Bin::FDiv), "frem" => Some(Bin::FRem), _ => None };
        if let Some(b) = bin {
            self.skip_to_type(&mut p);
            let (t, a) = self.tv(&mut p);
            p.need(b',');
            let c = self.opd(&mut p, &t);
            let ab = a.into_iter().zip(c).collect();
            return (Some(Inst::Bin { op: b, w: t.width(), dst, ab }), vec![]);
        }
        let cast = match op {
            "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "bitcast" => Some(Cast::Bit),
            "fptosi" => Some(Cast::FToSI), "fptoui" => Some(Cast::FToUI), "sitofp" => Some(Cast::SIToF), "uitofp" => Some(Cast::UIToF), "fptrunc" => Some(Cast::FTrunc), "fpext" => Some(Cast::FExt), _ => None };
        if let Some(mut k) = cast {
            self.skip_to_type(&mut p);
            let (t, a) = self.tv(&mut p);
            assert!(p.kw("to"));
            let t2 = self.ty(&mut p);
            if k == Cast::Bit {
                let sf = t.flat(); let df = t2.flat();
                return (Some(Inst::Repack { dst, dw: df.iter().map(|x| x.1).collect(), src: a.into_iter().zip(sf.iter().map(|x| x.1)).collect() }), vec![]);
            }
            if k == Cast::ZExt && t2.width() < t.width() { k = Cast::Trunc }
            if k == Cast::ZExt && t2.width() == t.width() { return (Some(Inst::Move { dst, src: a.into() }), vec![]); }
            return (Some(Inst::Cast { k, from: t.width(), to: t2.width(), dst, a: a.into() }), vec![]);
        }
        match op {
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" { w = p.word(); }
                let pr = match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => return bad(l) };
                let (t, a) = self.tv(&mut p);
                p.need(b',');
                let b = self.opd(&mut p, &t);
                (Some(Inst::Icmp { p: pr, w: t.width(), dst, ab: a.into_iter().zip(b).collect() }), vec![])
            }
            "fcmp" => {
                let mut w = p.word();
                while ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&w) { w = p.word(); }
                let k = match w { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, _ => 15 };
                let (t, a) = self.tv(&mut p);
                p.need(b',');
                let b = self.opd(&mut p, &t);
                if a.len() != 1 { return bad(l); }
                (Some(Inst::Fcmp { p: k, w: t.width(), dst, a: a[0], b: b[0] }), vec![])
            }
            "fneg" => {
                self.skip_to_type(&mut p);
                let (t, a) = self.tv(&mut p);
                let w = t.width();
                (Some(Inst::Bin { op: Bin::Xor, w, dst, ab: a.into_iter().map(|x| (x, Opd::C(1u128 << (w - 1)))).collect() }), vec![])
            }
            "select" => {
                self.skip_to_type(&mut p);
                let (_, c) = self.tv(&mut p); p.need(b',');
                let (t, a) = self.tv(&mut p); p.need(b',');
                let (_, b) = self.tv(&mut p);
                (Some(Inst::Select { w: t.flat().iter().map(|x| x.1).collect(), dst, c: c.into(), ab: a.into_iter().zip(b).collect() }), vec![])
            }
            "freeze" => { let (_, a) = self.tv(&mut p); (Some(Inst::Move { dst, src: a.into() }), vec![]) }
            "extractvalue" => {
                let (t, a) = self.tv(&mut p);
                let mut cur = t; let mut base = 0;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let i = p.int() as usize;
                    for k in 0..i { base += cur.elem(k).count(); }
                    cur = cur.elem(i).clone();
                }
                let n = cur.count();
                (Some(Inst::Move { dst, src: a[base..base + n].to_vec().into() }), vec![])
            }
            "insertvalue" => {
                let (t, mut a) = self.tv(&mut p); p.need(b',');
                let (_, v) = self.tv(&mut p);
                let mut cur = t; let mut base = 0;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let i = p.int() as usize;
                    for k in 0..i { base += cur.elem(k).count(); }
                    cur = cur.elem(i).clone();
                }
                for (k, x) in v.into_iter().enumerate() { a[base + k] = x; }
                (Some(Inst::Move { dst, src: a.into() }), vec![])
            }
            "extractelement" => {
                let (_, a) = self.tv(&mut p); p.need(b',');
                let (_, i) = self.tv(&mut p);
                (Some(Inst::ExtractElt { dst, src: a.into(), idx: i[0] }), vec![])
            }
            "insertelement" => {
                let (_, a) = self.tv(&mut p); p.need(b',');
                let (_, v) = self.tv(&mut p); p.need(b',');
                let (_, i) = self.tv(&mut p);
                (Some(Inst::InsertElt { dst, src: a.into(), val: v[0], idx: i[0] }), vec![])
            }
            "shufflevector" => {
                let (_, a) = self.tv(&mut p); p.need(b',');
                let (_, b) = self.tv(&mut p); p.need(b',');
                let (_, mk) = self.tv(&mut p);
                let mut all = a; all.extend(b);
                let src: Vec<Opd> = mk.iter().map(|o| match o { Opd::C(c) => all.get(*c as usize).copied().unwrap_or(Opd::C(0)), _ => Opd::C(0) }).collect();
                (Some(Inst::Move { dst, src: src.into() }), vec![])
            }
            "load" => {
                p.kw("atomic"); p.kw("volatile");
                let t = self.ty(&mut p); p.need(b',');
                let (_, a) = self.tv(&mut p);
                if let Ty::Vec(_, e) = &t { if e.width() % 8 != 0 { return bad(l); } }
                (Some(Inst::Load { dst, ptr: a[0], parts: t.flat().into() }), vec![])
            }
            "store" => {
                p.kw("atomic"); p.kw("volatile");
                let (t, v) = self.tv(&mut p); p.need(b',');
                let (_, a) = self.tv(&mut p);
                if let Ty::Vec(_, e) = &t { if e.width() % 8 != 0 { return bad(l); } }
                let parts = t.flat().into_iter().zip(v).map(|((o, w), x)| (o, w, x)).collect();
                (Some(Inst::Store { ptr: a[0], parts }), vec![])
            }
            "getelementptr" => {
                while ["inbounds", "nuw", "nusw", "inrange"].contains(&p.word_peek()) { p.word(); if p.peek() == b'(' { p.skip_group(); } }
                let t = self.ty(&mut p); p.need(b',');
                let (bt, base) = self.tv(&mut p);
                if base.len() != 1 || bt != Ty::Ptr { return bad(l); }
                let mut off = 0i128;
                let mut terms: Vec<(Opd, u32, u64)> = vec![];
                let mut cur = t; let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let (it, iv) = self.tv(&mut p);
                    if iv.len() != 1 { return bad(l); }
                    let w = it.width();
                    let scale = if first { cur.size() } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match iv[0] { Opd::C(c) => c as usize, _ => return bad(l) };
                                off += cur.field_off(k) as i128;
                                cur = cur.elem(k).clone();
                                continue;
                            }
                            _ => { let e = cur.elem(0).clone(); let s = e.size(); cur = e; s }
                        }
                    };
                    first = false;
                    match iv[0] {
                        Opd::C(c) => { let sh = 128 - w; off += (((c << sh) as i128) >> sh) * scale as i128; }
                        s => terms.push((s, w, scale)),
                    }
                }
                (Some(Inst::Gep { dst, base: base[0], off: off as u64, terms: terms.into() }), vec![])
            }
            "alloca" => {
                p.kw("inalloca");
                let t = self.ty(&mut p);
                let mut n = Opd::C(1);
                let mut al = t.align();
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    if p.kw("align") { al = p.int() as u64; continue; }
                    let (_, v) = self.tv(&mut p);
                    n = v[0];
                }
                match n {
                    Opd::C(c) => {
                        let o = (self.frame + al - 1) / al * al;
                        self.frame = o + t.size() * c as u64;
                        (Some(Inst::Alloca { dst, off: o }), vec![])
                    }
                    n => (Some(Inst::AllocaDyn { dst, elem: t.size(), n }), vec![]),
                }
            }
            "fence" => (None, vec![]),
            "atomicrmw" => {
                p.kw("volatile");
                let k = match p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "max" => Rmw::Max, "min" => Rmw::Min, _ => return bad(l) };
                let (_, a) = self.tv(&mut p); p.need(b',');
                let (t, v) = self.tv(&mut p);
                (Some(Inst::Rmw { op: k, w: t.width(), dst, ptr: a[0], v: v[0] }), vec![])
            }
            "cmpxchg" => {
                p.kw("weak"); p.kw("volatile");
                let (_, a) = self.tv(&mut p); p.need(b',');
                let (t, x) = self.tv(&mut p); p.need(b',');
                let (_, y) = self.tv(&mut p);
                (Some(Inst::CmpXchg { w: t.width(), dst, ptr: a[0], a: x[0], b: y[0] }), vec![])
            }
            "br" => {
                if p.word_peek() == "label" { let t = self.label(&mut p); return (Some(Inst::Br(t)), vec![]); }
                let (_, c) = self.tv(&mut p); p.need(b',');
                let a = self.label(&mut p); p.need(b',');
                let b = self.label(&mut p);
                (Some(Inst::CondBr(c[0], a, b)), vec![])
            }
            "switch" => {
                let (t, v) = self.tv(&mut p); p.need(b',');
                let d = self.label(&mut p);
                p.need(b'[');
                let mut cs = vec![];
                while p.peek() != b']' {
                    let (_, c) = self.tv(&mut p); p.need(b',');
                    let b = self.label(&mut p);
                    if let Opd::C(c) = c[0] { cs.push((c, b)); }
                }
                (Some(Inst::Switch(v[0], t.width(), d, cs.into())), vec![])
            }
            "ret" => {
                if p.word_peek() == "void" { return (Some(Inst::Ret(Box::new([]))), vec![]); }
                let (_, v) = self.tv(&mut p);
                (Some(Inst::Ret(v.into())), vec![])
            }
            "unreachable" => (Some(Inst::Unreachable), vec![]),
            "phi" => {
                self.skip_to_type(&mut p);
                let t = self.ty(&mut p);
                let mut cols: Vec<Vec<(u32, Opd)>> = (0..dcount).map(|_| vec![]).collect();
                loop {
                    p.need(b'[');
                    let v = self.opd(&mut p, &t); p.need(b',');
                    p.need(b'%');
                    let n = p.name();
                    let b = *self.blocks.get(&n).unwrap_or_else(|| panic!("phi block {}", n));
                    p.need(b']');
                    for (k, x) in v.into_iter().enumerate() { cols[k].push((b, x)); }
                    if !p.eat(b',') { break; }
                    if p.peek() == b'!' { break; }
                }
                (None, cols.into_iter().enumerate().map(|(k, c)| (dst + k as u32, c)).collect())
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = op == "invoke";
                if op != "call" && op != "invoke" { p.word(); }
                self.skip_to_type(&mut p);
                let rt = self.ty(&mut p);
                if p.peek() == b'(' { p.skip_group(); }
                let callee;
                let c = p.peek();
                if c == b'@' {
                    p.i += 1;
                    let n = p.name();
                    callee = match self.m.fn_id.get(&n) { Some(f) => Callee::Fn(*f), None => Callee::Ext(Rc::from(n)) };
                } else if c == b'%' {
                    let o = self.opd(&mut p, &Ty::Ptr);
                    callee = Callee::Ptr(o[0]);
                } else if p.word_peek() == "asm" {
                    p.word();
                    let mut txt = String::new();
                    while p.peek() != b'(' {
                        if p.peek() == b'"' { let st = p.i + 1; p.i += 1; while p.s[p.i] != b'"' { p.i += 1 } txt.push_str(&String::from_utf8_lossy(&p.s[st..p.i])); txt.push('|'); p.i += 1; }
                        else if p.word().is_empty() { p.i += 1; }
                    }
                    callee = Callee::Asm(Rc::from(txt));
                } else {
                    let o = self.opd(&mut p, &Ty::Ptr);
                    callee = Callee::Ptr(o[0]);
                }
                p.need(b'(');
                let mut args: Vec<Box<[(Opd, u32)]>> = vec![];
                if !p.eat(b')') {
                    loop {
                        let (t, v) = self.tv(&mut p);
                        args.push(v.into_iter().zip(t.flat().into_iter().map(|x| x.1)).collect());
                        if p.eat(b')') { break; }
                        p.need(b',');
                    }
                }
                let mut next = u32::MAX;
                if invoke {
                    let pos = l.windows(10).rposition(|w| w == b"to label %").unwrap();
                    let mut q = P { s: l, i: pos + 3 };
                    next = self.label(&mut q);
                }
                if let Callee::Ext(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || &**n == "llvm.donothing" || &**n == "llvm.assume" || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") {
                        return (if invoke { Some(Inst::Br(next)) } else { None }, vec![]);
                    }
                }
                (Some(Inst::Call { dst, dw: rt.flat().iter().map(|x| x.1).collect(), callee, args: args.into(), next }), vec![])
            }
            "landingpad" | "resume" => (Some(Inst::Bad(Rc::from(op))), vec![]),
            _ => bad(l),
        }
    }
}
