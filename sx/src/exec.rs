//! The symbolic executor.
use crate::expr::{mask, sx, Ctx, Op, Sat, E};
use crate::ir::*;
use crate::mem::{Mem, Obj, Val};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub func: Rc<Func>, pub block: u32, pub ip: u32, pub prev: u32, pub slots: Vec<Val>, pub base: u64, pub stack_mark: usize, pub dst: u32, pub next: u32 }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Vec<u128>,
    pub stale: bool, // the model may not satisfy pc
    pub syms: Vec<(Rc<str>, u32)>,
    pub conc: Vec<(E, u128)>,
    pub out: Vec<(u8, E)>,
    pub stdin: Rc<Vec<(u8, E)>>,
    pub stdin_pos: usize, clock: u64,
    pub steps: u64,
    pub notes: Vec<String>,
    pub covers: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Violation { pub msg: String, pub values: Vec<(String, u32, u128)>, pub trace: Vec<String>, pub notes: Vec<String> }

#[derive(Default)]
pub struct Report {
    pub paths: u64, pub pruned: u64, pub steps: u64, pub forks: u64, pub max_steps: u64,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub cache_hits: u64, pub model_hits: u64, pub ns: u64, pub nsyms: u64,
    pub checks: u64, pub sym_checks: u64,
    pub covers: BTreeMap<String, u64>, pub expects: BTreeSet<String>,
    pub violations: Vec<Violation>, pub samples: Vec<Violation>, pub errors: Vec<String>, pub incomplete: bool,
    pub blocks: BTreeSet<(u32, u32)>,
}

pub enum Flow { Next, Jumped, End }
type R<T> = Result<T, Stop>;
pub enum Stop { Err(String), Prune, Retry }
impl From<String> for Stop { fn from(s: String) -> Stop { Stop::Err(s) } }

#[derive(Clone, Copy, PartialEq)]
enum FnKind { Normal, Panic }

pub struct Engine {
    pub m: Module,
    pub cx: Ctx,
    pub pending: Vec<Box<State>>,
    pub rep: Report,
    pub kinds: Vec<u8>,
    pub step_limit: u64,
    pub stop_first: bool,
    pub errno: u64,
    pub seen: Vec<Vec<bool>>,
    pub trace: bool,
    pub hook: Option<fn(&mut Engine)>,
    pub last_split: Instant,
    pub prof: Option<HashMap<String, u64>>,
}

fn fn_kind(name: &str) -> FnKind {
    if (name.contains("4core9panicking") && !name.contains("panicking8internal")) || name.contains("17rust_begin_unwind") || name.contains("3std9panicking11begin_panic") || name.contains("3std9panicking15begin_panic") || name.contains("rust_panic") { return FnKind::Panic; }
    FnKind::Normal
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32) -> Engine {
        let kinds = m.fn_names.iter().map(|n| if fn_kind(n) == FnKind::Panic { 1 } else { 0 }).collect();
        let n = m.fn_names.len();
        Engine { m, cx: Ctx::new(timeout_ms), pending: vec![], rep: Report::default(), kinds, step_limit: 50_000_000, stop_first: true, errno: 0, seen: vec![vec![]; n], trace: false, hook: None, last_split: Instant::now(), prof: None }
    }

    pub fn initial(&mut self, entry: &str) -> Result<Box<State>, String> {
        let mut mem = Mem::default();
        for g in 0..self.m.globs.len() {
            let ty = self.m.globs[g].ty.clone();
            let size = ty.size() as usize;
            let mut data = vec![0u8; size];
            if let Some((a, b)) = self.m.globs[g].init {
                let mut p = P { s: &self.m.text[a..b], i: 0 };
                let mut v = vec![];
                if p.word_peek() != "zeroinitializer" {
                    self.m.constant(&mut p, &ty, &mut v);
                    let fl = ty.flat();
                    if fl.len() != v.len() { return Err(format!("initializer of {}", self.m.globs[g].name)); }
                    for ((off, w), x) in fl.into_iter().zip(v) {
                        let n = ((w + 7) / 8) as usize;
                        let mut x = x;
                        for k in 0..n { data[off as usize + k] = x as u8; x >>= 8; }
                    }
                }
            }
            mem.globs.push(Obj { data, sym: vec![], ro: self.m.globs[g].constant });
        }
        self.errno = mem.malloc(8);
        let id = *self.m.fn_id.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let mut st = Box::new(State { frames: vec![], mem, pc: vec![], model: vec![], stale: false, syms: vec![], conc: vec![], out: vec![], stdin: Rc::new(vec![]), stdin_pos: 0, clock: 0, steps: 0, notes: vec![], covers: vec![] });
        self.push_frame(&mut st, id, &[], 0, u32::MAX);
        Ok(st)
    }

    fn push_frame(&mut self, st: &mut State, id: u32, args: &[Val], dst: u32, next: u32) {
        let func = self.m.func(id);
        if let Some(p) = &mut self.prof { *p.entry(func.name.clone()).or_default() += 1; }
        let mut slots = vec![Val::Z; func.nslots as usize];
        let mut k = 0;
        for (s, c) in &func.params { for i in 0..*c { if k < args.len() { slots[(*s + i) as usize] = args[k]; } k += 1; } }
        let mark = st.mem.stack.len;
        let base = if func.frame > 0 { st.mem.stack_alloc(func.frame) } else { 0 };
        self.mark(id, 0, func.blocks.len());
        st.frames.push(Frame { func, block: 0, ip: 0, prev: u32::MAX, slots, base, stack_mark: mark, dst, next });
    }
    #[inline]
    fn mark(&mut self, f: u32, b: u32, n: usize) { let v = &mut self.seen[f as usize]; if v.is_empty() { v.resize(n, false); } v[b as usize] = true; }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| {
            let b = &f.func.blocks[f.block as usize];
            let d = b.dbg.get(f.ip as usize).copied().unwrap_or(0);
            format!("{} ({})", short(&f.func.name), self.m.loc(d).map(|(file, line, _)| format!("{}:{}", file, line)).unwrap_or_default())
        }).collect()
    }

    // ---- solver helpers -------------------------------------------------
    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        let mut syms: BTreeSet<u32> = self.cx.syms_of(e).iter().copied().collect();
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![e];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let cs = self.cx.syms_of(*c);
                if cs.iter().any(|s| syms.contains(s)) { used[i] = true; ch = true; out.push(*c); syms.extend(cs.iter().copied()); }
            }
            if !ch { break; }
        }
        out
    }
    fn refresh(&mut self, st: &mut State) -> R<bool> {
        if !st.stale { return Ok(true); }
        match self.cx.solve(st.pc.clone()) {
            Sat::Sat(m) => { for (i, v) in m.iter() { set(&mut st.model, *i, *v); } st.stale = false; Ok(true) }
            Sat::Unsat => Ok(false),
            Sat::Unknown => Err(Stop::Err("solver gave no answer (timeout)".into())),
        }
    }
    /// Is pc ∧ c satisfiable; returns the updated model if so.
    fn sat(&mut self, st: &mut State, c: E) -> R<Option<Vec<u128>>> {
        if let Some(v) = self.cx.kv(c) { return Ok(if v == 1 { Some(st.model.clone()) } else { None }); }
        if self.cx.eval(c, &st.model) == 1 { self.cx.stats.model_hits += 1; return Ok(Some(st.model.clone())); }
        let s = self.slice(st, c);
        match self.cx.solve(s) {
            Sat::Sat(m) => { let mut md = st.model.clone(); for (i, v) in m.iter() { set(&mut md, *i, *v); } Ok(Some(md)) }
            Sat::Unsat => Ok(None),
            Sat::Unknown => Err(Stop::Err("solver gave no answer (timeout)".into())),
        }
    }
    fn add(&mut self, st: &mut State, c: E) {
        if self.cx.kv(c) == Some(1) { return; }
        let n = self.cx.n[c as usize];
        if n.op == Op::And { self.add(st, n.a); self.add(st, n.b); return; }
        // x == const is remembered for later concretisation
        if n.op == Op::Eq { if let Some(v) = self.cx.kv(n.b) { st.conc.push((n.a, v)); } }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }

    /// Splits on the value of `e`.  The current state keeps one value, the
    /// siblings re-execute the current instruction with another one.
    fn concretize(&mut self, st: &mut State, v: Val, w: u32) -> R<u128> {
        if v.e == 0 { return Ok(v.c); }
        if let Some((_, k)) = st.conc.iter().find(|(e, _)| *e == v.e) { return Ok(*k); }
        if !self.refresh(st)? { return Err(Stop::Prune); }
        let mut found: Vec<(u128, Vec<u128>)> = vec![];
        let v0 = self.cx.eval(v.e, &st.model);
        found.push((v0, st.model.clone()));
        let k = self.cx.k(w, v0);
        let eq = self.cx.bin(Op::Eq, v.e, k);
        let mut block = self.cx.not(eq);
        loop {
            match self.sat(st, block)? {
                None => break,
                Some(m) => {
                    let x = self.cx.eval(v.e, &m);
                    let k = self.cx.k(w, x);
                    let eq = self.cx.bin(Op::Eq, v.e, k);
                    let ne = self.cx.not(eq);
                    found.push((x, m));
                    if found.len() > 300 { return Err(Stop::Err(format!("more than 300 values for a symbolic address/size/choice at {:?}", self.backtrace(st)))); }
                    block = self.cx.bin(Op::And, block, ne);
                }
            }
        }
        let (v0, m0) = found[0].clone();
        for (x, m) in found.into_iter().skip(1).rev() {
            let mut s2 = Box::new(st.clone());
            let k = self.cx.k(w, x);
            let eq = self.cx.bin(Op::Eq, v.e, k);
            s2.model = m;
            s2.conc.push((v.e, x));
            self.add(&mut s2, eq);
            self.rep.forks += 1;
            self.pending.push(s2);
        }
        let eq = { let k = self.cx.k(w, v0); self.cx.bin(Op::Eq, v.e, k) };
        st.model = m0;
        st.conc.push((v.e, v0));
        self.add(st, eq);
        Ok(v0)
    }

    fn violation(&mut self, st: &State, msg: String, model: &[u128]) {
        let values = st.syms.iter().enumerate().map(|(i, (t, w))| (t.to_string(), *w, model.get(i).copied().unwrap_or(0) & mask(*w))).collect();
        let v = Violation { msg, values, trace: self.backtrace(st), notes: st.notes.clone() };
        if !self.rep.violations.iter().any(|x| x.msg == v.msg) { self.rep.violations.push(v); }
    }

    // ---- value helpers --------------------------------------------------
    fn ex(&mut self, v: Val, w: u32) -> E { if v.e != 0 { v.e } else { self.cx.k(w, v.c) } }
    fn val(&self, e: E) -> Val { match self.cx.kv(e) { Some(c) => Val::k(c), None => Val { c: 0, e } } }
    fn vbin(&mut self, op: Op, w: u32, a: Val, b: Val) -> Val {
        if a.e == 0 && b.e == 0 { return Val::k(Ctx::eval_bin(op, w, a.c, b.c)); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.bin(op, x, y);
        self.val(e)
    }
    fn vite(&mut self, c: Val, w: u32, a: Val, b: Val) -> Val {
        if c.e == 0 { return if c.c & 1 == 1 { a } else { b }; }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.ite(c.e, x, y);
        self.val(e)
    }
    fn vzext(&mut self, a: Val, w: u32) -> Val { if a.e == 0 { return a; } let e = self.cx.zext(a.e, w); self.val(e) }
    fn vsext(&mut self, a: Val, f: u32, w: u32) -> Val { if a.e == 0 { return Val::k(sx(a.c, f) as u128 & mask(w)); } let e = self.cx.sext(a.e, w); self.val(e) }
    fn vtrunc(&mut self, a: Val, w: u32) -> Val { if a.e == 0 { return Val::k(a.c & mask(w)); } let e = self.cx.extract(a.e, w - 1, 0); self.val(e) }
    fn vextract(&mut self, a: Val, hi: u32, lo: u32) -> Val { if a.e == 0 { return Val::k((a.c >> lo) & mask(hi - lo + 1)); } let e = self.cx.extract(a.e, hi, lo); self.val(e) }
    fn vconcat(&mut self, h: Val, hw: u32, l: Val, lw: u32) -> Val {
        if h.e == 0 && l.e == 0 { return Val::k((h.c << lw) | l.c); }
        let (x, y) = (self.ex(h, hw), self.ex(l, lw));
        let e = self.cx.concat(x, y);
        self.val(e)
    }
    fn vnot(&mut self, a: Val, w: u32) -> Val { if a.e == 0 { return Val::k(!a.c & mask(w)); } let e = self.cx.not(a.e); self.val(e) }
    fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        let r = self.vbin(op, w, a, b);
        if neg { self.vnot(r, 1) } else { r }
    }

    // ---- main loop ------------------------------------------------------
    pub fn explore(&mut self, st: Box<State>) {
        self.pending.push(st);
        while let Some(s) = self.pending.pop() {
            self.run(s);
            if let Some(h) = self.hook { h(self); }
            if self.rep.incomplete || !self.rep.errors.is_empty() || (self.stop_first && !self.rep.violations.is_empty()) { return; }
        }
    }

    fn run(&mut self, mut st: Box<State>) {
        loop {
            let r = self.burst(&mut st);
            match r {
                Ok(Flow::End) => {
                    self.rep.paths += 1;
                    let n = self.rep.violations.len();
                    if self.rep.paths.is_power_of_two() && self.rep.samples.len() < 12 && n == 0 {
                        if let Ok(true) = self.refresh(&mut st) {
                            let values = st.syms.iter().enumerate().map(|(i, (t, w))| (t.to_string(), *w, st.model.get(i).copied().unwrap_or(0) & mask(*w))).collect();
                            self.rep.samples.push(Violation { msg: st.covers.join(","), values, trace: vec![], notes: vec![] });
                        }
                    }
                    break;
                }
                Ok(_) => {
                    if self.hook.is_some() { let h = self.hook.unwrap(); h(self); if self.rep.incomplete { return; } }
                }
                Err(Stop::Prune) => { self.rep.pruned += 1; break; }
                Err(Stop::Retry) => {}
                Err(Stop::Err(e)) => { let bt = self.backtrace(&st); self.rep.errors.push(format!("{} at {:?}", e, bt)); break; }
            }
            if st.steps > self.step_limit {
                if let Ok(true) = self.refresh(&mut st) {
                    let m = st.model.clone();
                    self.violation(&st, format!("no end within {} executed instructions", self.step_limit), &m);
                }
                break;
            }
        }
        self.rep.steps += st.steps;
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
        self.rep.nsyms = self.rep.nsyms.max(st.syms.len() as u64);
    }

    /// runs until something interesting (a call boundary budget, a fork, the end)
    fn burst(&mut self, st: &mut Box<State>) -> R<Flow> {
        for _ in 0..20_000 {
            let fr = st.frames.last().unwrap();
            let func: *const Func = &*fr.func;
            let blk = unsafe { &(&(*func).blocks)[fr.block as usize] };
            let inst = &blk.insts[fr.ip as usize];
            if self.trace { eprintln!("[{}] {} b{} i{} {:?}", st.frames.len(), short(&fr.func.name), fr.block, fr.ip, inst); }
            st.steps += 1;
            match self.step(st, inst)? {
                Flow::Next => { let f = st.frames.last_mut().unwrap(); f.ip += 1; }
                Flow::Jumped => {}
                Flow::End => return Ok(Flow::End),
            }
        }
        Ok(Flow::Next)
    }

    #[inline]
    fn get(&self, st: &State, o: Opd) -> Val { match o { Opd::C(c) => Val { c, e: 0 }, Opd::S(s) => unsafe { let f = st.frames.last().unwrap_unchecked(); *f.slots.get_unchecked(s as usize) } } }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) { let f = st.frames.last_mut().unwrap(); f.slots[d as usize] = v; }

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.block;
        let func = f.func.clone();
        let blk = &func.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, ins) in &blk.phis {
                let o = ins.iter().find(|(b, _)| *b == from).map(|x| x.1).expect("phi edge");
                let v = match o { Opd::C(c) => Val { c, e: 0 }, Opd::S(s) => f.slots[s as usize] };
                tmp.push((*d, v));
            }
            for (d, v) in tmp { f.slots[d as usize] = v; }
        }
        f.prev = from;
        f.block = to;
        f.ip = 0;
        self.mark(func.id, to, func.blocks.len());
    }

    fn addr(&mut self, st: &mut State, v: Val) -> R<u64> { if v.e == 0 { Ok(v.c as u64) } else { Ok(self.concretize(st, v, 64)? as u64) } }

    /// A load whose address is symbolic but certainly inside one object becomes an if-then-else over the object.
    fn load_sym(&mut self, st: &mut State, a: Val, w: u32) -> R<Option<Val>> {
        if st.conc.iter().any(|(e, _)| *e == a.e) { return Ok(None); }
        if !self.refresh(st)? { return Err(Stop::Prune); }
        let m = self.cx.eval(a.e, &st.model) as u64;
        let base = m >> SHIFT << SHIFT;
        let n = ((w + 7) / 8) as u64;
        let size = match st.mem.obj(m) { Some(o) => o.data.len() as u64, None => return Ok(None) };
        if size > 2048 || size < n { return Ok(None); }
        let kb = self.cx.k(64, base as u128);
        let off = self.cx.bin(Op::Sub, a.e, kb);
        let lim = self.cx.k(64, (size - n) as u128);
        let oob = self.cx.bin(Op::Ult, lim, off);
        if self.sat(st, oob)?.is_some() { return Ok(None); }
        let mut stride = 1;
        if n > 1 && (base & (n - 1)) == 0 {
            let l = n.trailing_zeros();
            let low = self.cx.extract(off, l - 1, 0);
            let z = self.cx.k(l, 0);
            let eq = self.cx.bin(Op::Eq, low, z);
            let ne = self.cx.not(eq);
            if self.sat(st, ne)?.is_none() { stride = n; }
        }
        let mut vals: Vec<(u64, Val)> = vec![];
        let mut o = 0;
        while o + n <= size { let v = st.mem.load(&mut self.cx, base + o, w)?; vals.push((o, v)); o += stride; }
        // runs of equal values
        let mut acc = { let v = vals.last().unwrap().1; self.ex(v, w) };
        for i in (0..vals.len() - 1).rev() {
            let (vi, vn) = (self.ex(vals[i].1, w), self.ex(vals[i + 1].1, w));
            if vi == vn { continue; }
            let k = self.cx.k(64, vals[i].0 as u128);
            let c = self.cx.bin(Op::Ule, off, k);
            acc = self.cx.ite(c, vi, acc);
        }
        Ok(Some(self.val(acc)))
    }

    fn step(&mut self, st: &mut Box<State>, inst: &Inst) -> R<Flow> {
        match inst {
            Inst::Bin { op, w, dst, ab } => {
                for (i, (a, b)) in ab.iter().enumerate() {
                    let (x, y) = (self.get(st, *a), self.get(st, *b));
                    let o = match op {
                        Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem,
                        Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor,
                        f => {
                            let (x, y) = (Val::k(self.concretize(st, x, *w)?), Val::k(self.concretize(st, y, *w)?));
                            let r = if *w == 64 {
                                let (p, q) = (f64::from_bits(x.c as u64), f64::from_bits(y.c as u64));
                                (match f { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits() as u128
                            } else {
                                let (p, q) = (f32::from_bits(x.c as u32), f32::from_bits(y.c as u32));
                                (match f { Bin::FAdd => p + q, Bin::FSub => p - q, Bin::FMul => p * q, Bin::FDiv => p / q, _ => p % q }).to_bits() as u128
                            };
                            self.set(st, dst + i as u32, Val::k(r));
                            continue;
                        }
                    };
                    let v = self.vbin(o, *w, x, y);
                    self.set(st, dst + i as u32, v);
                }
                Ok(Flow::Next)
            }
            Inst::Icmp { p, w, dst, ab } => {
                for (i, (a, b)) in ab.iter().enumerate() {
                    let (x, y) = (self.get(st, *a), self.get(st, *b));
                    let v = self.icmp(*p, *w, x, y);
                    self.set(st, dst + i as u32, v);
                }
                Ok(Flow::Next)
            }
            Inst::Fcmp { p, w, dst, a, b } => {
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let (x, y) = (Val::k(self.concretize(st, x, *w)?), Val::k(self.concretize(st, y, *w)?));
                let (x, y) = if *w == 64 { (f64::from_bits(x.c as u64), f64::from_bits(y.c as u64)) } else { (f32::from_bits(x.c as u32) as f64, f32::from_bits(y.c as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p { 0 => false, 1 => !un && x == y, 2 => !un && x > y, 3 => !un && x >= y, 4 => !un && x < y, 5 => !un && x <= y, 6 => !un && x != y, 7 => !un, 8 => un, 9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y, 14 => un || x != y, _ => true };
                self.set(st, *dst, Val::k(r as u128));
                Ok(Flow::Next)
            }
            Inst::Cast { k, from, to, dst, a } => {
                for (i, o) in a.iter().enumerate() {
                    let x = self.get(st, *o);
                    let v = match k {
                        Cast::Trunc => self.vtrunc(x, *to),
                        Cast::ZExt => self.vzext(x, *to),
                        Cast::SExt => self.vsext(x, *from, *to),
                        _ => {
                            let x = Val::k(self.concretize(st, x, *from)?);
                            let f = if *from == 64 { f64::from_bits(x.c as u64) } else { f32::from_bits(x.c as u32) as f64 };
                            let fl = |d: f64| if *to == 64 { d.to_bits() as u128 } else { (d as f32).to_bits() as u128 };
                            Val::k(match k {
                                Cast::FToSI => (f as i128) as u128 & mask(*to), Cast::FToUI => (f as u128) & mask(*to),
                                Cast::SIToF => fl(sx(x.c, *from) as f64), Cast::UIToF => fl(x.c as f64), _ => fl(f) })
                        }
                    };
                    self.set(st, dst + i as u32, v);
                }
                Ok(Flow::Next)
            }
            Inst::Select { w, dst, c, ab } => {
                for (i, (a, b)) in ab.iter().enumerate() {
                    let cv = self.get(st, if c.len() == 1 { c[0] } else { c[i] });
                    let (x, y) = (self.get(st, *a), self.get(st, *b));
                    let v = self.vite(cv, w[i], x, y);
                    self.set(st, dst + i as u32, v);
                }
                Ok(Flow::Next)
            }
            Inst::Move { dst, src } => {
                if src.len() == 1 { let v = self.get(st, src[0]); self.set(st, *dst, v); }
                else { let vs: Vec<Val> = src.iter().map(|o| self.get(st, *o)).collect(); for (i, v) in vs.into_iter().enumerate() { self.set(st, dst + i as u32, v); } }
                Ok(Flow::Next)
            }
            Inst::Repack { dst, dw, src } => {
                let total: u32 = src.iter().map(|x| x.1).sum();
                if src.len() == dw.len() { for (i, (o, _)) in src.iter().enumerate() { let v = self.get(st, *o); self.set(st, dst + i as u32, v); } return Ok(Flow::Next); }
                if total <= 128 {
                    let mut acc = Val::Z; let mut aw = 0;
                    for (o, w) in src.iter() { let v = self.get(st, *o); acc = if aw == 0 { v } else { self.vconcat(v, *w, acc, aw) }; aw += w; }
                    let mut lo = 0;
                    for (i, w) in dw.iter().enumerate() { let v = self.vextract(acc, lo + w - 1, lo); self.set(st, dst + i as u32, v); lo += w; }
                    return Ok(Flow::Next);
                }
                Err(Stop::Err("wide bitcast".into()))
            }
            Inst::ExtractElt { dst, src, idx } => {
                let i = self.get(st, *idx); let i = self.concretize(st, i, 64)?;
                let v = self.get(st, src[i as usize % src.len()]);
                self.set(st, *dst, v);
                Ok(Flow::Next)
            }
            Inst::InsertElt { dst, src, val, idx } => {
                let i = self.get(st, *idx); let i = self.concretize(st, i, 64)? as usize;
                let mut vs: Vec<Val> = src.iter().map(|o| self.get(st, *o)).collect();
                vs[i] = self.get(st, *val);
                for (k, v) in vs.into_iter().enumerate() { self.set(st, dst + k as u32, v); }
                Ok(Flow::Next)
            }
            Inst::Load { dst, ptr, parts } => {
                let a = self.get(st, *ptr);
                if a.e != 0 && parts.len() == 1 { if let Some(v) = self.load_sym(st, a, parts[0].1)? { self.set(st, *dst, v); return Ok(Flow::Next); } }
                let a = self.addr(st, a)?;
                for (i, (off, w)) in parts.iter().enumerate() {
                    let v = st.mem.load(&mut self.cx, a.wrapping_add(*off), *w)?;
                    self.set(st, dst + i as u32, v);
                }
                Ok(Flow::Next)
            }
            Inst::Store { ptr, parts } => {
                let a = self.get(st, *ptr); let a = self.addr(st, a)?;
                for (off, w, o) in parts.iter() {
                    let v = self.get(st, *o);
                    st.mem.store(&mut self.cx, a.wrapping_add(*off), *w, v)?;
                }
                Ok(Flow::Next)
            }
            Inst::Gep { dst, base, off, terms } => {
                let mut b = self.get(st, *base);
                if b.e == 0 { b.c = (b.c as u64).wrapping_add(*off) as u128; } else { b = self.vbin(Op::Add, 64, b, Val::k(*off as u128)); }
                for (o, w, scale) in terms.iter() {
                    let x = self.get(st, *o);
                    if x.e == 0 && b.e == 0 {
                        let d = (sx(x.c, *w) as i64).wrapping_mul(*scale as i64);
                        b.c = (b.c as u64).wrapping_add(d as u64) as u128;
                    } else {
                        let x = if *w < 64 { self.vsext(x, *w, 64) } else { x };
                        let t = self.vbin(Op::Mul, 64, x, Val::k(*scale as u128));
                        b = self.vbin(Op::Add, 64, b, t);
                    }
                }
                self.set(st, *dst, b);
                Ok(Flow::Next)
            }
            Inst::Alloca { dst, off } => { let b = st.frames.last().unwrap().base; self.set(st, *dst, Val::k((b + off) as u128)); Ok(Flow::Next) }
            Inst::AllocaDyn { dst, elem, n } => {
                let n = self.get(st, *n); let n = self.concretize(st, n, 64)?;
                let a = st.mem.stack_alloc(elem * n as u64);
                self.set(st, *dst, Val::k(a as u128));
                Ok(Flow::Next)
            }
            Inst::Rmw { op, w, dst, ptr, v } => {
                let a = self.get(st, *ptr); let a = self.addr(st, a)?;
                let old = st.mem.load(&mut self.cx, a, *w)?;
                let x = self.get(st, *v);
                let new = match op {
                    Rmw::Xchg => x, Rmw::Add => self.vbin(Op::Add, *w, old, x), Rmw::Sub => self.vbin(Op::Sub, *w, old, x),
                    Rmw::And => self.vbin(Op::And, *w, old, x), Rmw::Or => self.vbin(Op::Or, *w, old, x), Rmw::Xor => self.vbin(Op::Xor, *w, old, x),
                    Rmw::Nand => { let t = self.vbin(Op::And, *w, old, x); self.vnot(t, *w) }
                    Rmw::UMax => { let c = self.vbin(Op::Ult, *w, old, x); self.vite(c, *w, x, old) }
                    Rmw::UMin => { let c = self.vbin(Op::Ult, *w, old, x); self.vite(c, *w, old, x) }
                    Rmw::Max => { let c = self.vbin(Op::Slt, *w, old, x); self.vite(c, *w, x, old) }
                    Rmw::Min => { let c = self.vbin(Op::Slt, *w, old, x); self.vite(c, *w, old, x) }
                };
                st.mem.store(&mut self.cx, a, *w, new)?;
                self.set(st, *dst, old);
                Ok(Flow::Next)
            }
            Inst::CmpXchg { w, dst, ptr, a, b } => {
                let p = self.get(st, *ptr); let p = self.addr(st, p)?;
                let old = st.mem.load(&mut self.cx, p, *w)?;
                let (x, y) = (self.get(st, *a), self.get(st, *b));
                let eq = self.vbin(Op::Eq, *w, old, x);
                let new = self.vite(eq, *w, y, old);
                st.mem.store(&mut self.cx, p, *w, new)?;
                self.set(st, *dst, old);
                self.set(st, dst + 1, eq);
                Ok(Flow::Next)
            }
            Inst::Br(t) => { self.jump(st, *t); Ok(Flow::Jumped) }
            Inst::CondBr(c, a, b) => {
                let v = self.get(st, *c);
                if v.e == 0 { self.jump(st, if v.c & 1 == 1 { *a } else { *b }); return Ok(Flow::Jumped); }
                if !self.refresh(st)? { return Err(Stop::Prune); }
                let c = v.e; let nc = self.cx.not(c);
                let cur = self.cx.eval(c, &st.model) == 1;
                let (mine, other, tm, to) = if cur { (c, nc, *a, *b) } else { (nc, c, *b, *a) };
                if let Some(m) = self.sat(st, other)? {
                    let mut s2 = Box::new((**st).clone());
                    s2.model = m;
                    self.add(&mut s2, other);
                    self.jump(&mut s2, to);
                    self.rep.forks += 1;
                    self.pending.push(s2);
                    self.add(st, mine);
                }
                self.jump(st, tm);
                Ok(Flow::Jumped)
            }
            Inst::Switch(v, w, d, cs) => {
                let x = self.get(st, *v);
                if x.e == 0 {
                    let t = cs.iter().find(|(c, _)| *c == x.c).map(|y| y.1).unwrap_or(*d);
                    self.jump(st, t);
                    return Ok(Flow::Jumped);
                }
                if let Some((_, k)) = st.conc.iter().find(|(e, _)| *e == x.e) {
                    let t = cs.iter().find(|(c, _)| c == k).map(|y| y.1).unwrap_or(*d);
                    self.jump(st, t);
                    return Ok(Flow::Jumped);
                }
                if !self.refresh(st)? { return Err(Stop::Prune); }
                let mut groups: Vec<(u32, E)> = vec![];
                let mut none = self.cx.k(1, 1);
                for (c, t) in cs.iter() {
                    let k = self.cx.k(*w, *c);
                    let eq = self.cx.bin(Op::Eq, x.e, k);
                    let ne = self.cx.not(eq);
                    none = self.cx.bin(Op::And, none, ne);
                    match groups.iter_mut().find(|g| g.0 == *t) { Some(g) => { let o = g.1; g.1 = self.cx.bin(Op::Or, o, eq); } None => groups.push((*t, eq)) }
                }
                match groups.iter_mut().find(|g| g.0 == *d) { Some(g) => { let o = g.1; g.1 = self.cx.bin(Op::Or, o, none); } None => groups.push((*d, none)) }
                let mut feas: Vec<(u32, E, Vec<u128>)> = vec![];
                for (t, c) in groups { if let Some(m) = self.sat(st, c)? { feas.push((t, c, m)); } }
                if feas.is_empty() { return Err(Stop::Prune); }
                for (t, c, m) in feas.iter().skip(1).rev() {
                    let mut s2 = Box::new((**st).clone());
                    s2.model = m.clone();
                    self.add(&mut s2, *c);
                    self.jump(&mut s2, *t);
                    self.rep.forks += 1;
                    self.pending.push(s2);
                }
                let (t, c, m) = feas.swap_remove(0);
                st.model = m;
                self.add(st, c);
                self.jump(st, t);
                Ok(Flow::Jumped)
            }
            Inst::Ret(vs) => {
                let vals: Vec<Val> = vs.iter().map(|o| self.get(st, *o)).collect();
                let f = st.frames.pop().unwrap();
                st.mem.stack.truncate(f.stack_mark);
                if st.frames.is_empty() { return Ok(Flow::End); }
                for (i, v) in vals.into_iter().enumerate() { self.set(st, f.dst + i as u32, v); }
                if f.next != u32::MAX { self.jump(st, f.next); return Ok(Flow::Jumped); }
                st.frames.last_mut().unwrap().ip += 1;
                Ok(Flow::Jumped)
            }
            Inst::Unreachable => {
                if !self.refresh(st)? { return Err(Stop::Prune); }
                let m = st.model.clone();
                self.violation(st, "control reached code marked unreachable".into(), &m);
                Ok(Flow::End)
            }
            Inst::Nop => Ok(Flow::Next),
            Inst::Bad(t) => Err(Stop::Err(format!("unsupported instruction: {}", t))),
            Inst::Call { dst, dw, callee, args, next } => self.call(st, *dst, dw, callee, args, *next),
        }
    }

    fn done(&mut self, st: &mut State, next: u32) -> R<Flow> { if next != u32::MAX { self.jump(st, next); Ok(Flow::Jumped) } else { Ok(Flow::Next) } }

    fn call(&mut self, st: &mut Box<State>, dst: u32, dw: &[u32], callee: &Callee, args: &[Box<[(Opd, u32)]>], next: u32) -> R<Flow> {
        let mut av: Vec<Val> = Vec::with_capacity(args.len() + 2);
        let mut aw: Vec<u32> = Vec::with_capacity(args.len() + 2);
        for a in args { for (o, w) in a.iter() { av.push(self.get(st, *o)); aw.push(*w); } }
        let (fid, name): (Option<u32>, Rc<str>) = match callee {
            Callee::Fn(f) => (Some(*f), Rc::from("")),
            Callee::Ext(n) => (None, n.clone()),
            Callee::Ptr(o) => {
                let p = self.get(st, *o); let p = self.addr(st, p)?;
                let i = p >> SHIFT;
                if i >= FN_BASE && i < EXT_BASE { (Some((i - FN_BASE) as u32), Rc::from("")) }
                else if i >= EXT_BASE && i < GLOB_BASE { (None, Rc::from(self.m.declared_names[(i - EXT_BASE) as usize].as_str())) }
                else { return Err(Stop::Err(format!("call of a non-function address {:#x}", p))); }
            }
            Callee::Asm(t) => {
                if t.starts_with("cpuid") || t.contains("cpuid") || t.contains("xgetbv") { for i in 0..dw.len() { self.set(st, dst + i as u32, Val::Z); } return self.done(st, next); }
                if t.starts_with('|') || t.starts_with("~") { return self.done(st, next); }
                return Err(Stop::Err(format!("inline asm {}", t)));
            }
        };
        if let Some(f) = fid {
            if self.kinds[f as usize] == 1 {
                if !self.refresh(st)? { return Err(Stop::Prune); }
                let m = st.model.clone();
                let msg = self.panic_msg(st, f, &av);
                self.violation(st, msg, &m);
                return Ok(Flow::End);
            }
            if st.frames.len() > 4000 { return Err(Stop::Err("call depth".into())); }
            self.push_frame(st, f, &av, dst, next);
            return Ok(Flow::Jumped);
        }
        let mut out: Vec<Val> = vec![];
        match self.external(st, &name, &av, &aw, dw, &mut out)? {
            Flow::Next => {
                for (i, v) in out.into_iter().enumerate() { self.set(st, dst + i as u32, v); }
                self.done(st, next)
            }
            f => Ok(f),
        }
    }

    fn panic_msg(&mut self, st: &State, f: u32, av: &[Val]) -> String {
        let name = &self.m.fn_names[f as usize];
        let mut msg = String::new();
        let mut loc = String::new();
        if let Some(l) = av.last() {
            if l.e == 0 {
                if let (Ok(p), Ok(n), Ok(line)) = (st.mem.load(&mut self.cx, l.c as u64, 64), st.mem.load(&mut self.cx, l.c as u64 + 8, 64), st.mem.load(&mut self.cx, l.c as u64 + 16, 32)) {
                    if n.c < 400 { loc = format!("{}:{}", st.mem.string(p.c as u64, n.c as usize), line.c); }
                }
            }
        }
        if av.len() >= 2 && av[0].e == 0 && av[1].e == 0 {
            let n = av[1].c as u64;
            if name.ends_with("9panicking5panic") && n < 1000 { msg = st.mem.string(av[0].c as u64, n as usize); }
            else if n & 1 == 1 && n < 2000 { msg = st.mem.string(av[0].c as u64, (n >> 1) as usize); }
        }
        format!("panic at {}: {} [{}]", loc, msg, short(name))
    }

    fn external(&mut self, st: &mut Box<State>, name: &str, av: &[Val], aw: &[u32], dw: &[u32], out: &mut Vec<Val>) -> R<Flow> {
        macro_rules! conc { ($i:expr) => { self.concretize(st, av[$i], aw[$i])? as u64 } }
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, av, aw, dw, out); }
        match name {
            "sx_sym" => {
                let tag = st.mem.string(av[0].c as u64, av[1].c as usize);
                let w = av[2].c as u32;
                let idx = st.syms.len() as u32;
                st.syms.push((Rc::from(tag), w));
                let e = self.cx.sym(idx, w);
                let e = self.cx.zext(e, 64);
                out.push(Val { c: 0, e });
            }
            "sx_assume_" => {
                let c = self.vtrunc(av[0], 1);
                if c.e == 0 { if c.c == 0 { return Err(Stop::Prune); } }
                else {
                    if self.cx.eval(c.e, &st.model) != 1 { if st.stale && !self.refresh(st)? { return Err(Stop::Prune); }
                        match self.sat(st, c.e)? { Some(m) => st.model = m, None => return Err(Stop::Prune) } }
                    self.add(st, c.e);
                }
            }
            "sx_check_" => {
                let c = self.vtrunc(av[0], 1);
                self.rep.checks += 1;
                let (mp, ml) = (conc!(1), conc!(2) as usize);
                let msg = |st: &State| st.mem.string(mp, ml);
                if c.e == 0 {
                    if c.c == 0 { if !self.refresh(st)? { return Err(Stop::Prune); } let m = st.model.clone(); let t = msg(st); self.violation(st, t, &m); return Ok(Flow::End); }
                } else {
                    self.rep.sym_checks += 1;
                    if !self.refresh(st)? { return Err(Stop::Prune); }
                    let n = self.cx.not(c.e);
                    if let Some(m) = self.sat(st, n)? {
                        let t = msg(st);
                        self.violation(st, t, &m);
                        match self.sat(st, c.e)? { Some(m) => st.model = m, None => return Ok(Flow::End) }
                        self.add(st, c.e);
                    }
                }
            }
            "sx_cover_" => { let (mp, ml) = (conc!(0), conc!(1) as usize); if !self.refresh(st)? { return Err(Stop::Prune); } let t = st.mem.string(mp, ml); st.covers.push(t.clone()); *self.rep.covers.entry(t).or_default() += 1; }
            "sx_expect_" => { let (mp, ml) = (conc!(0), conc!(1) as usize); let t = st.mem.string(mp, ml); self.rep.expects.insert(t); }
            "sx_fork_" => { let v = self.concretize(st, av[0], 64)?; out.push(Val::k(v)); }
            "sx_note_" => { let (mp, ml) = (conc!(0), conc!(1) as usize); let t = st.mem.string(mp, ml); if self.trace || std::env::var("SX_NOTES").is_ok() { eprintln!("NOTE {}", t); } st.notes.push(t); }
            "sx_stdout_len_" => out.push(Val::k(st.out.len() as u128)),
            "sx_stdout_byte_" => { let i = conc!(0) as usize; let (b, e) = st.out[i]; out.push(if e != 0 { let e = self.cx.zext(e, 64); Val { c: 0, e } } else { Val::k(b as u128) }); }
            "sx_set_stdin_" => { let n = conc!(1) as usize; let (d, s) = st.mem.bytes(av[0].c as u64, n)?; st.stdin = Rc::new(d.into_iter().enumerate().map(|(i, b)| (b, s.get(i).copied().unwrap_or(0))).collect()); st.stdin_pos = 0; }
            "sx_end_" => return Ok(Flow::End),
            "sx_is_sym_" => out.push(Val::k((av[0].e != 0) as u128)),
            "sx_select_" => { let c = self.vtrunc(av[0], 1); let v = self.vite(c, 64, av[1], av[2]); out.push(v); }
            "malloc" => { let n = conc!(0); let a = st.mem.malloc(n); out.push(Val::k(a as u128)); }
            "calloc" => { let n = conc!(0); let m = conc!(1); let a = st.mem.malloc(n * m); out.push(Val::k(a as u128)); }
            "realloc" => {
                let p = conc!(0); let n = conc!(1) as usize;
                if p == 0 { let a = st.mem.malloc(n as u64); out.push(Val::k(a as u128)); }
                else {
                    let (d, s) = { let o = st.mem.obj(p).ok_or_else(|| Stop::Err("realloc of unknown object".into()))?; let k = o.data.len().min(n); (o.data[..k].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[..k].to_vec() }) };
                    let a = st.mem.malloc(n as u64);
                    if a != 0 { st.mem.put(a, &d, &s)?; st.mem.free(p)?; }
                    out.push(Val::k(a as u128));
                }
            }
            "free" => { let p = conc!(0); if p != 0 { st.mem.free(p)?; } }
            "posix_memalign" => { let n = conc!(2); let a = st.mem.malloc(n); st.mem.store(&mut self.cx, av[0].c as u64, 64, Val::k(a as u128))?; out.push(Val::k(0)); }
            "aligned_alloc" => { let n = conc!(1); let a = st.mem.malloc(n); out.push(Val::k(a as u128)); }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (conc!(0), conc!(1), conc!(2) as usize);
                let (d1, s1) = st.mem.bytes(p, n)?; let (d2, s2) = st.mem.bytes(q, n)?;
                if s1.is_empty() && s2.is_empty() { let r = match d1.cmp(&d2) { std::cmp::Ordering::Less => mask(32), std::cmp::Ordering::Equal => 0, _ => 1 }; out.push(Val::k(r)); }
                else {
                    let byte = |c: &mut Ctx, d: &[u8], s: &[E], i: usize| if !s.is_empty() && s[i] != 0 { s[i] } else { c.k(8, d[i] as u128) };
                    if name == "bcmp" {
                        let mut all = self.cx.k(1, 1);
                        for i in 0..n { let (x, y) = (byte(&mut self.cx, &d1, &s1, i), byte(&mut self.cx, &d2, &s2, i)); let eq = self.cx.bin(Op::Eq, x, y); all = self.cx.bin(Op::And, all, eq); if all == 0 { break; } }
                        let ne = self.cx.not(all);
                        let r = self.cx.zext(ne, 32);
                        out.push(self.val(r));
                    } else {
                        let mut acc = self.cx.k(32, 0);
                        let (one, neg) = (self.cx.k(32, 1), self.cx.k(32, mask(32)));
                        for i in (0..n).rev() {
                            let (x, y) = (byte(&mut self.cx, &d1, &s1, i), byte(&mut self.cx, &d2, &s2, i));
                            let eq = self.cx.bin(Op::Eq, x, y); let lt = self.cx.bin(Op::Ult, x, y);
                            let t = self.cx.ite(lt, neg, one);
                            acc = self.cx.ite(eq, acc, t);
                        }
                        out.push(self.val(acc));
                    }
                }
            }
            "strlen" => {
                let p = conc!(0); let mut n = 0u64;
                loop { let v = st.mem.load(&mut self.cx, p + n, 8)?; if v.e != 0 { return Err(Stop::Err("strlen of symbolic bytes".into())); } if v.c == 0 { break; } n += 1; }
                out.push(Val::k(n as u128));
            }
            "write" => {
                let fd = conc!(0); let n = conc!(2) as usize; let p = conc!(1);
                let (d, s) = st.mem.bytes(p, n)?;
                if fd == 1 { for (i, b) in d.into_iter().enumerate() { st.out.push((b, s.get(i).copied().unwrap_or(0))); } }
                else if fd != 2 { return Err(Stop::Err(format!("write to descriptor {}", fd))); }
                out.push(Val::k(n as u128));
            }
            "writev" => {
                let fd = conc!(0); let iov = conc!(1); let cnt = conc!(2);
                let mut tot = 0u64;
                for i in 0..cnt {
                    let p = st.mem.load(&mut self.cx, iov + i * 16, 64)?.c as u64; let n = st.mem.load(&mut self.cx, iov + i * 16 + 8, 64)?.c as u64;
                    let (d, s) = st.mem.bytes(p, n as usize)?;
                    if fd == 1 { for (i, b) in d.into_iter().enumerate() { st.out.push((b, s.get(i).copied().unwrap_or(0))); } }
                    tot += n;
                }
                out.push(Val::k(tot as u128));
            }
            "read" => {
                let fd = conc!(0); let n = conc!(2) as usize; let p = conc!(1);
                if fd != 0 { return Err(Stop::Err(format!("read from descriptor {}", fd))); }
                let src = st.stdin.clone();
                let k = n.min(src.len() - st.stdin_pos);
                for i in 0..k { let (b, e) = src[st.stdin_pos + i]; st.mem.store(&mut self.cx, p + i as u64, 8, Val { c: b as u128, e })?; }
                st.stdin_pos += k;
                out.push(Val::k(k as u128));
            }
            "__errno_location" => out.push(Val::k(self.errno as u128)),
            "getenv" | "secure_getenv" => out.push(Val::k(0)),
            "pthread_self" => out.push(Val::k(1)),
            "gettid" | "getpid" => out.push(Val::k(42)),
            "sched_yield" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_delete" | "pthread_setspecific" | "sigaction" | "sigaltstack" | "munmap" | "mprotect" | "close" | "pthread_attr_destroy" | "poll" => out.push(Val::k(0)),
            "pthread_getspecific" => out.push(Val::k(0)),
            "pthread_key_create" => { st.mem.store(&mut self.cx, av[0].c as u64, 32, Val::k(1))?; out.push(Val::k(0)); }
            "__cxa_thread_atexit_impl" | "__cxa_atexit" | "atexit" => out.push(Val::k(0)),
            // every look at the clock is a little later than the one before
            "clock_gettime" => { st.clock += 1; let (a, b) = (1000 + st.clock / 1_000_000, st.clock % 1_000_000 * 1000); st.mem.store(&mut self.cx, av[1].c as u64, 64, Val::k(a as u128))?; st.mem.store(&mut self.cx, av[1].c as u64 + 8, 64, Val::k(b as u128))?; out.push(Val::k(0)); }
            "getrandom" => { let n = conc!(1) as usize; let p = conc!(0); let d: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect(); st.mem.put(p, &d, &[])?; out.push(Val::k(n as u128)); }
            "syscall" => {
                let nr = conc!(0);
                match nr {
                    318 => { let n = conc!(2) as usize; let p = conc!(1); let d: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect(); st.mem.put(p, &d, &[])?; out.push(Val::k(n as u128)); }
                    202 => out.push(Val::k(0)), // futex: nobody waits in a single threaded program
                    186 => out.push(Val::k(42)),
                    _ => return Err(Stop::Err(format!("system call {}", nr))),
                }
            }
            "abort" | "exit" | "_exit" => {
                if !self.refresh(st)? { return Err(Stop::Prune); }
                let m = st.model.clone();
                self.violation(st, format!("the process calls {}()", name), &m);
                return Ok(Flow::End);
            }
            _ => return Err(Stop::Err(format!("unknown external function {}", name))),
        }
        Ok(Flow::Next)
    }

    fn intrinsic(&mut self, st: &mut Box<State>, n: &str, av: &[Val], aw: &[u32], dw: &[u32], out: &mut Vec<Val>) -> R<Flow> {
        let base = n.split('.').next().unwrap();
        let has = |p: &str| n.starts_with(p);
        if has("memcpy") || has("memmove") {
            let k = self.concretize(st, av[2], 64)? as usize;
            if k == 0 { return Ok(Flow::Next); }
            let q = self.concretize(st, av[1], 64)? as u64; let p = self.concretize(st, av[0], 64)? as u64;
            let (d, s) = st.mem.bytes(q, k)?;
            st.mem.put(p, &d, &s)?;
            return Ok(Flow::Next);
        }
        if has("memset") {
            let k = self.concretize(st, av[2], 64)? as usize;
            if k == 0 { return Ok(Flow::Next); }
            let p = self.concretize(st, av[0], 64)? as u64;
            if av[1].e != 0 { st.mem.put(p, &vec![0; k], &vec![av[1].e; k])?; } else { st.mem.put(p, &vec![av[1].c as u8; k], &[])?; }
            return Ok(Flow::Next);
        }
        if has("trap") || has("ubsantrap") || has("debugtrap") {
            if !self.refresh(st)? { return Err(Stop::Prune); }
            let m = st.model.clone();
            self.violation(st, "trap".into(), &m);
            return Ok(Flow::End);
        }
        if has("threadlocal.address") || has("launder.invariant") || has("strip.invariant") || has("expect") || has("ssa.copy") { out.push(av[0]); return Ok(Flow::Next); }
        if has("is.constant") { out.push(Val::k(0)); return Ok(Flow::Next); }
        if has("objectsize") { out.push(Val::k(mask(dw[0]))); return Ok(Flow::Next); }
        if has("stacksave") { out.push(Val::k(0)); return Ok(Flow::Next); }
        if has("stackrestore") || has("assume") || has("var.annotation") || has("sideeffect") { return Ok(Flow::Next); }
        if has("load.relative") {
            let p = self.concretize(st, av[0], 64)? as u64; let o = self.concretize(st, av[1], aw[1])?;
            let o = sx(o, aw[1]) as i64 as u64;
            let d = st.mem.load(&mut self.cx, p.wrapping_add(o), 32)?;
            out.push(Val::k(p.wrapping_add(sx(d.c, 32) as i64 as u64) as u128));
            return Ok(Flow::Next);
        }
        if has("ptrmask") { let v = self.vbin(Op::And, 64, av[0], av[1]); out.push(v); return Ok(Flow::Next); }
        if let Some(r) = n.strip_prefix("vector.reduce.") {
            let op = match r.split('.').next().unwrap() { "add" => Op::Add, "mul" => Op::Mul, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "umax" => Op::Ult, "umin" => Op::Ule, x => return Err(Stop::Err(format!("vector.reduce.{}", x))) };
            let w = aw[0];
            let mut acc = av[0];
            for x in &av[1..] {
                acc = match op {
                    Op::Ult => { let c = self.vbin(Op::Ult, w, acc, *x); self.vite(c, w, *x, acc) }
                    Op::Ule => { let c = self.vbin(Op::Ult, w, acc, *x); self.vite(c, w, acc, *x) }
                    o => self.vbin(o, w, acc, *x),
                };
            }
            out.push(acc);
            return Ok(Flow::Next);
        }
        if n.contains(".with.overflow") {
            let lanes = av.len() / 2;
            if lanes != 1 { return Err(Stop::Err("vector overflow intrinsic".into())); }
            let w = aw[0];
            let signed = base.starts_with('s');
            let op = match &base[1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
            let (a, b) = (av[0], av[1]);
            if a.e == 0 && b.e == 0 {
                if signed {
                    let (x, y) = (sx(a.c, w), sx(b.c, w));
                    let (r, o) = match op { Op::Add => x.overflowing_add(y), Op::Sub => x.overflowing_sub(y), _ => x.overflowing_mul(y) };
                    let t = r as u128 & mask(w);
                    out.push(Val::k(t)); out.push(Val::k((o || sx(t, w) != r) as u128));
                } else {
                    let (r, o) = match op { Op::Add => a.c.overflowing_add(b.c), Op::Sub => a.c.overflowing_sub(b.c), _ => a.c.overflowing_mul(b.c) };
                    let t = r & mask(w);
                    out.push(Val::k(t)); out.push(Val::k((o || t != r) as u128));
                }
                return Ok(Flow::Next);
            }
            let r = self.vbin(op, w, a, b);
            let ov = match (op, signed) {
                (Op::Add, false) => self.vbin(Op::Ult, w, r, a),
                (Op::Sub, false) => self.vbin(Op::Ult, w, a, b),
                _ => {
                    let ww = if op == Op::Mul { w * 2 } else { w + 1 };
                    if ww > 128 { return Err(Stop::Err("wide symbolic overflow".into())); }
                    let (x, y) = if signed { (self.vsext(a, w, ww), self.vsext(b, w, ww)) } else { (self.vzext(a, ww), self.vzext(b, ww)) };
                    let full = self.vbin(op, ww, x, y);
                    let back = if signed { self.vsext(r, w, ww) } else { self.vzext(r, ww) };
                    let eq = self.vbin(Op::Eq, ww, full, back);
                    self.vnot(eq, 1)
                }
            };
            out.push(r); out.push(ov);
            return Ok(Flow::Next);
        }
        // element-wise intrinsics
        let nargs = match base { "umax" | "umin" | "smax" | "smin" | "ucmp" | "scmp" | "uadd" | "usub" | "sadd" | "ssub" | "ctlz" | "cttz" | "abs" => 2, "fshl" | "fshr" => 3, "ctpop" | "bswap" | "bitreverse" | "fabs" | "floor" | "ceil" | "trunc" => 1, _ => return Err(Stop::Err(format!("unknown intrinsic llvm.{}", n))) };
        let lanes = dw.len();
        for l in 0..lanes {
            let a = av[l];
            let scalar2 = matches!(base, "ctlz" | "cttz" | "abs");
            let b = if nargs >= 2 { if scalar2 { av[lanes] } else { av[lanes + l] } } else { Val::Z };
            let w = aw[l];
            let r = match base {
                "umax" | "umin" | "smax" | "smin" => {
                    let c = self.vbin(if base.starts_with('u') { Op::Ult } else { Op::Slt }, w, a, b);
                    if base.ends_with("max") { self.vite(c, w, b, a) } else { self.vite(c, w, a, b) }
                }
                "ucmp" | "scmp" => {
                    let rw = dw[l];
                    let lt = self.vbin(if base.starts_with('u') { Op::Ult } else { Op::Slt }, w, a, b);
                    let eq = self.vbin(Op::Eq, w, a, b);
                    let t = self.vite(eq, rw, Val::k(0), Val::k(1));
                    self.vite(lt, rw, Val::k(mask(rw)), t)
                }
                "uadd" => { let s = self.vbin(Op::Add, w, a, b); let o = self.vbin(Op::Ult, w, s, a); self.vite(o, w, Val::k(mask(w)), s) }
                "usub" => { let s = self.vbin(Op::Sub, w, a, b); let o = self.vbin(Op::Ult, w, a, b); self.vite(o, w, Val::k(0), s) }
                "sadd" | "ssub" => {
                    if a.e != 0 || b.e != 0 {
                        let (top, z) = (Val::k(1u128 << (w - 1)), Val::k(0));
                        let s = self.vbin(if base == "sadd" { Op::Add } else { Op::Sub }, w, a, b);
                        let x = self.vbin(Op::Xor, w, s, a);
                        let y = if base == "sadd" { self.vbin(Op::Xor, w, s, b) } else { self.vbin(Op::Xor, w, a, b) };
                        let m = self.vbin(Op::And, w, x, y);
                        let o = self.vbin(Op::Slt, w, m, z);
                        let neg = self.vbin(Op::Slt, w, a, z);
                        let lim = self.vite(neg, w, top, Val::k(mask(w - 1)));
                        out.push(self.vite(o, w, lim, s));
                        continue;
                    }
                    let r = if base == "sadd" { sx(a.c, w) + sx(b.c, w) } else { sx(a.c, w) - sx(b.c, w) };
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    Val::k(r.clamp(lo, hi) as u128 & mask(w))
                }
                "abs" => { let neg = self.vbin(Op::Slt, w, a, Val::k(0)); let m = self.vbin(Op::Sub, w, Val::k(0), a); self.vite(neg, w, m, a) }
                "ctpop" => {
                    if a.e == 0 { Val::k(a.c.count_ones() as u128) } else {
                        let mut s = Val::k(0);
                        for i in 0..w { let bit = self.vextract(a, i, i); let z = self.vzext(bit, w); s = self.vbin(Op::Add, w, s, z); }
                        s
                    }
                }
                "ctlz" => {
                    if a.e == 0 { Val::k(if a.c == 0 { w as u128 } else { (a.c.leading_zeros() - (128 - w)) as u128 }) } else {
                        let mut r = Val::k(w as u128);
                        for i in 0..w { let bit = self.vextract(a, i, i); r = self.vite(bit, w, Val::k((w - 1 - i) as u128), r); }
                        r
                    }
                }
                "cttz" => {
                    if a.e == 0 { Val::k(if a.c == 0 { w as u128 } else { a.c.trailing_zeros() as u128 }) } else {
                        let mut r = Val::k(w as u128);
                        for i in (0..w).rev() { let bit = self.vextract(a, i, i); r = self.vite(bit, w, Val::k(i as u128), r); }
                        r
                    }
                }
                "bswap" => {
                    let mut acc = self.vextract(a, 7, 0); let mut k = 8;
                    while k < w { let b = self.vextract(a, k + 7, k); acc = self.vconcat(acc, k, b, 8); k += 8; }
                    acc
                }
                "bitreverse" => {
                    let mut acc = self.vextract(a, 0, 0);
                    for k in 1..w { let b = self.vextract(a, k, k); acc = self.vconcat(acc, k, b, 1); }
                    acc
                }
                "fshl" | "fshr" => {
                    let s = av[2 * lanes + l];
                    let s = self.concretize(st, s, w)? as u32 % w;
                    let s = if base == "fshl" { s } else { (w - s) % w };
                    if s == 0 { if base == "fshl" { a } else { b } }
                    else { let h = self.vextract(a, w - s - 1, 0); let lo = self.vextract(b, w - 1, w - s); self.vconcat(h, w - s, lo, s) }
                }
                "fabs" => { let a = Val::k(self.concretize(st, a, w)?); Val::k(a.c & mask(w - 1)) }
                "floor" | "ceil" | "trunc" => { if a.e != 0 || w != 64 { return Err(Stop::Err("float rounding".into())); } let f = f64::from_bits(a.c as u64); Val::k((match base { "floor" => f.floor(), "ceil" => f.ceil(), _ => f.trunc() }).to_bits() as u128) }
                _ => unreachable!(),
            };
            out.push(r);
        }
        Ok(Flow::Next)
    }
}

pub fn set(m: &mut Vec<u128>, i: u32, v: u128) { let i = i as usize; if m.len() <= i { m.resize(i + 1, 0); } m[i] = v; }

/// crude demangling, good enough for reports
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2;
    let mut parts = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator s...._ / backref B.._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1 }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() {
            let mut k = 0usize; let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1 }
            if j < b.len() && b[j] == b'_' { j += 1 }
            if k > 0 && j + k <= b.len() { parts.push(String::from_utf8_lossy(&b[j..j + k]).to_string()); i = j + k; continue; }
            i = j; continue;
        }
        i += 1;
    }
    let l = parts.len();
    parts[l.saturating_sub(7)..].join("::")
}

impl Module {
    fn meta_text(&self, i: u32) -> &str { match self.meta.get(i as usize) { Some((a, b)) if *b > 0 => std::str::from_utf8(&self.text[*a as usize..*b as usize]).unwrap_or(""), _ => "" } }
    fn field<'a>(&'a self, t: &'a str, k: &str) -> Option<&'a str> {
        let p = format!("{}: ", k);
        let mut from = 0;
        loop {
            let i = t[from..].find(&p)? + from;
            if i == 0 || matches!(t.as_bytes()[i - 1], b'(' | b' ') { let r = &t[i + p.len()..]; let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len()); return Some(r[..e].trim()); }
            from = i + p.len();
        }
    }
    /// file, line, function name for a !dbg number
    pub fn loc(&self, d: u32) -> Option<(String, u32, String)> {
        if d == 0 { return None; }
        let t = self.meta_text(d);
        let line: u32 = self.field(t, "line")?.parse().ok()?;
        let mut s: u32 = self.field(t, "scope")?.trim_start_matches('!').parse().ok()?;
        for _ in 0..20 {
            let u = self.meta_text(s);
            if u.contains("!DISubprogram(") {
                let f: u32 = self.field(u, "file")?.trim_start_matches('!').parse().ok()?;
                let ft = self.meta_text(f);
                let file = self.field(ft, "filename")?.trim_matches('"').to_string();
                let dir = self.field(ft, "directory").unwrap_or("\"\"").trim_matches('"').to_string();
                let name = self.qual(u);
                let full = if file.starts_with('/') { file } else { format!("{}/{}", dir, file) };
                return Some((full, line, name));
            }
            s = self.field(u, "scope")?.trim_start_matches('!').parse().ok()?;
        }
        None
    }
    fn qual(&self, u: &str) -> String {
        let mut name = self.field(u, "name").unwrap_or("?").trim_matches('"').to_string();
        let mut sc = self.field(u, "scope").and_then(|x| x.trim_start_matches('!').parse::<u32>().ok());
        let mut k = 0;
        while let Some(s) = sc {
            let t = self.meta_text(s);
            if let Some(n) = self.field(t, "name") { name = format!("{}::{}", n.trim_matches('"'), name); }
            sc = self.field(t, "scope").and_then(|x| x.trim_start_matches('!').parse::<u32>().ok());
            k += 1; if k > 6 { break; }
        }
        name
    }
    pub fn inlined(&self, d: u32) -> Option<u32> { self.field(self.meta_text(d), "inlinedAt")?.trim_start_matches('!').parse().ok() }
}
