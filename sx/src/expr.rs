//! Hash-consed bit-vector expressions and the bridge to z3.
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Const, Sym, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: E, pub b: E, pub c: E, pub v: u128 }

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

type Ast = *mut c_void;
#[allow(non_camel_case_types)]
type Z = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_global_param_set(a: *const c_char, b: *const c_char);
    fn Z3_mk_solver_for_logic(c: Z, l: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Ast);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Z, a: Ast) -> *const c_char;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Ast;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Ast;
    fn Z3_mk_true(c: Z) -> Ast;
    fn Z3_mk_false(c: Z) -> Ast;
    fn Z3_mk_eq(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Z, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Z, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Z, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Z, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Z, a: Ast, b: Ast) -> Ast;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn z3_version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub model_hits: u64, pub ns: u64 }

pub struct Ctx {
    pub n: Vec<Node>,
    map: HashMap<Node, E>,
    syms: Vec<Option<Rc<[u32]>>>,
    z: Z, solver: Z,
    zbv: Vec<Ast>, zbool: Vec<Ast>,
    pub cache: HashMap<Box<[E]>, Option<Rc<Vec<(u32, u128)>>>>,
    pub stats: Stats,
    memo: Vec<u128>, memo_gen: Vec<u32>, gen: u32,
    pub timeout_ms: u32,
}

#[derive(Clone, Debug)]
pub enum Sat { Sat(Rc<Vec<(u32, u128)>>), Unsat, Unknown }

impl Ctx {
    pub fn new(timeout_ms: u32) -> Ctx {
        unsafe {
            let k = b"model_evaluator.completion\0"; let _ = k;
            Z3_global_param_set(b"verbose\0".as_ptr() as _, b"0\0".as_ptr() as _);
            let z = Z3_mk_context(Z3_mk_config());
            let simple = std::env::var("SX_SIMPLE").is_ok();
            let solver = if simple { Z3_mk_simple_solver(z) } else { Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, b"QF_BV\0".as_ptr() as _)) };
            Z3_solver_inc_ref(z, solver);
            let p = Z3_mk_params(z);
            Z3_params_inc_ref(z, p);
            Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, b"timeout\0".as_ptr() as _), timeout_ms);
            Z3_solver_set_params(z, solver, p);
            let mut c = Ctx { n: vec![], map: HashMap::new(), syms: vec![], z, solver, zbv: vec![], zbool: vec![], cache: HashMap::new(),
                stats: Stats::default(), memo: vec![], memo_gen: vec![], gen: 0, timeout_ms };
            c.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, v: 0 }); // id 0 = "no expression" (also the constant false)
            c
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) { return *e; }
        let id = self.n.len() as E;
        self.n.push(n);
        self.map.insert(n, id);
        self.syms.push(None);
        self.zbv.push(std::ptr::null_mut());
        self.zbool.push(std::ptr::null_mut());
        self.memo.push(0);
        self.memo_gen.push(0);
        id
    }
    pub fn k(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        if w == 1 && v == 0 { return 0; }
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, v })
    }
    pub fn sym(&mut self, idx: u32, w: u32) -> E { self.mk(Node { op: Op::Sym, w, a: idx, b: 0, c: 0, v: 0 }) }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w }
    pub fn kv(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.v) } else { None } }

    pub fn not(&mut self, a: E) -> E {
        let na = self.n[a as usize];
        match na.op {
            Op::Const => return self.k(na.w, !na.v),
            Op::Not => return na.a,
            Op::Ult if na.w == 1 => return self.bin(Op::Ule, na.b, na.a),
            Op::Ule if na.w == 1 => return self.bin(Op::Ult, na.b, na.a),
            Op::Slt if na.w == 1 => return self.bin(Op::Sle, na.b, na.a),
            Op::Sle if na.w == 1 => return self.bin(Op::Slt, na.b, na.a),
            _ => {}
        }
        self.mk(Node { op: Op::Not, w: na.w, a, b: 0, c: 0, v: 0 })
    }
    pub fn eval_bin(op: Op, w: u32, x: u128, y: u128) -> u128 {
        let m = mask(w);
        match op {
            Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
            Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => if y == 0 { m } else { x / y },
            Op::URem => if y == 0 { x } else { x % y },
            Op::SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 & m } }
            Op::SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 & m } }
            Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
            Op::LShr => if y >= w as u128 { 0 } else { x >> y },
            Op::AShr => { let a = sx(x, w); (if y >= w as u128 { a >> (w - 1).min(127) } else { a >> y }) as u128 & m }
            Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
            Op::Slt => (sx(x, w) < sx(y, w)) as u128, Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let (mut na, mut nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w;
        debug_assert_eq!(na.w, nb.w);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        if na.op == Op::Const && nb.op == Op::Const { let v = Self::eval_bin(op, w, na.v, nb.v); return self.k(rw, v); }
        let comm = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq);
        if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut na, &mut nb); }
        let kb = if nb.op == Op::Const { Some(nb.v) } else { None };
        let m = mask(w);
        match op {
            Op::And => {
                if a == b { return a; }
                if let Some(v) = kb {
                    if v == 0 { return b; } if v == m { return a; }
                    // low mask -> zext(extract)
                    if v & (v + 1) == 0 { let k = 128 - v.leading_zeros(); let x = self.extract(a, k - 1, 0); return self.zext(x, w); }
                }
                if w == 1 { if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return 0; } }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(v) = kb { if v == 0 { return a; } if v == m { return b; } }
                if w == 1 { if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.k(1, 1); } }
                // or of disjoint zero extended / shifted parts becomes a concat
                if kb.is_none() { if let Some(e) = self.or_concat(a, b, w) { return e; } }
            }
            Op::Xor => {
                if a == b { return self.k(w, 0); }
                if let Some(v) = kb { if v == 0 { return a; } if v == m { return self.not(a); } }
            }
            Op::Add => {
                if let Some(v) = kb {
                    if v == 0 { return a; }
                    if na.op == Op::Add { if let Some(k2) = self.kv(na.b) { let k = self.k(w, v.wrapping_add(k2)); return self.bin(Op::Add, na.a, k); } }
                }
            }
            Op::Sub => {
                if a == b { return self.k(w, 0); }
                if let Some(v) = kb { if v == 0 { return a; } let k = self.k(w, v.wrapping_neg()); return self.bin(Op::Add, a, k); }
            }
            Op::Mul => if let Some(v) = kb {
                if v == 0 { return b; } if v == 1 { return a; }
                if v.is_power_of_two() { let k = self.k(w, v.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); }
            },
            Op::UDiv => if let Some(v) = kb { if v == 1 { return a; } if v.is_power_of_two() { let k = self.k(w, v.trailing_zeros() as u128); return self.bin(Op::LShr, a, k); } },
            Op::URem => if let Some(v) = kb { if v == 1 { return self.k(w, 0); } if v.is_power_of_two() { let k = self.k(w, v - 1); return self.bin(Op::And, a, k); } },
            Op::Shl => if let Some(v) = kb {
                if v == 0 { return a; } if v >= w as u128 { return self.k(w, 0); }
                let v = v as u32;
                let lo = self.extract(a, w - v - 1, 0); let z = self.k(v, 0); return self.concat(lo, z);
            },
            Op::LShr => if let Some(v) = kb {
                if v == 0 { return a; } if v >= w as u128 { return self.k(w, 0); }
                let hi = self.extract(a, w - 1, v as u32); return self.zext(hi, w);
            },
            Op::AShr => if let Some(v) = kb {
                if v == 0 { return a; }
                let v = (v.min(w as u128 - 1)) as u32;
                let hi = self.extract(a, w - 1, v); return self.sext(hi, w);
            },
            Op::Eq => {
                if a == b { return self.k(1, 1); }
                if let Some(v) = kb {
                    if w == 1 { return if v == 1 { a } else { self.not(a) }; }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if v > mask(iw) { return 0; }
                            let k = self.k(iw, v); return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = v & mask(iw);
                            if (sx(t, iw) as u128) & m != v { return 0; }
                            let k = self.k(iw, t); return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.k(w - lw, v >> lw); let kl = self.k(lw, v);
                            let x = self.bin(Op::Eq, na.a, kh);
                            if x == 0 { return 0; }
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => if let Some(k2) = self.kv(na.b) { let k = self.k(w, v.wrapping_sub(k2)); return self.bin(Op::Eq, na.a, k); },
                        Op::Xor => if let Some(k2) = self.kv(na.b) { let k = self.k(w, v ^ k2); return self.bin(Op::Eq, na.a, k); },
                        Op::Not => { let k = self.k(w, !v); return self.bin(Op::Eq, na.a, k); }
                        Op::Ite => {
                            let (x, y) = (self.kv(na.b), self.kv(na.c));
                            if x.is_some() || y.is_some() {
                                let ex = self.bin(Op::Eq, na.b, b); let ey = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, ex, ey);
                            }
                        }
                        _ => {}
                    }
                } else if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
                if w == 1 && kb.is_none() { let x = self.bin(Op::Xor, a, b); return self.not(x); }
            }
            Op::Ult => {
                if a == b { return 0; }
                if let Some(v) = kb {
                    if v == 0 { return 0; }
                    if v == 1 { let z = self.k(w, 0); return self.bin(Op::Eq, a, z); }
                    if na.op == Op::ZExt { let iw = self.w(na.a); if v > mask(iw) { return self.k(1, 1); } let k = self.k(iw, v); return self.bin(Op::Ult, na.a, k); }
                }
                if na.op == Op::Const {
                    if na.v == m { return 0; }
                    if na.v == 0 { let z = self.k(w, 0); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                    if nb.op == Op::ZExt { let iw = self.w(nb.a); if na.v >= mask(iw) { return 0; } let k = self.k(iw, na.v); return self.bin(Op::Ult, k, nb.a); }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); }
            }
            Op::Ule => {
                if a == b { return self.k(1, 1); }
                if let Some(v) = kb {
                    if v == m { return self.k(1, 1); }
                    if v == 0 { let z = self.k(w, 0); return self.bin(Op::Eq, a, z); }
                    if na.op == Op::ZExt { let iw = self.w(na.a); if v >= mask(iw) { return self.k(1, 1); } let k = self.k(iw, v); return self.bin(Op::Ule, na.a, k); }
                }
                if na.op == Op::Const {
                    if na.v == 0 { return self.k(1, 1); }
                    if nb.op == Op::ZExt { let iw = self.w(nb.a); if na.v > mask(iw) { return 0; } let k = self.k(iw, na.v); return self.bin(Op::Ule, k, nb.a); }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ule, na.a, nb.a); }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.k(1, (op == Op::Sle) as u128); }
                // both non-negative because zero extended
                let nn = |n: &Node| n.op == Op::ZExt || (n.op == Op::Const && n.v >> (w - 1) == 0);
                if nn(&na) && nn(&nb) { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, v: 0 })
    }
    /// recognises hi|lo where the set bits cannot overlap, for parts aligned on a common cut
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        // one is Concat(x, 0_k), other ZExt(y) with width y <= k
        for (p, q) in [((a, na), (b, nb)), ((b, nb), (a, na))] {
            let ((_, np), (_, nq)) = (p, q);
            if np.op == Op::Concat && self.kv(np.b) == Some(0) && nq.op == Op::ZExt {
                let k = self.w(np.b);
                let yw = self.w(nq.a);
                if yw <= k { let y = self.zext(nq.a, k); let r = self.concat(np.a, y); debug_assert_eq!(self.w(r), w); return Some(r); }
            }
            // Concat(ZExt(x), 0_k) etc. : ZExt(Concat(x,0_k)) | ZExt(y)
            if np.op == Op::ZExt && nq.op == Op::ZExt {
                let ni = self.n[np.a as usize];
                if ni.op == Op::Concat && self.kv(ni.b) == Some(0) {
                    let k = self.w(ni.b);
                    let yw = self.w(nq.a);
                    if yw <= k { let y = self.zext(nq.a, k); let r = self.concat(ni.a, y); return Some(self.zext(r, w)); }
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.kv(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.kv(a), self.kv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, v: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let na = self.n[a as usize];
        if na.w == w { return a; }
        match na.op { Op::Const => return self.k(w, na.v), Op::ZExt => return self.zext(na.a, w), _ => {} }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let na = self.n[a as usize];
        if na.w == w { return a; }
        match na.op { Op::Const => return self.k(w, sx(na.v, na.w) as u128), Op::ZExt => return self.zext(na.a, w), Op::SExt => return self.sext(na.a, w), _ => {} }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, v: 0 })
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let na = self.n[a as usize];
        let w = hi - lo + 1;
        if w == na.w { return a; }
        match na.op {
            Op::Const => return self.k(w, na.v >> lo),
            Op::Extract => { let l2 = na.v as u32; return self.extract(na.a, hi + l2, lo + l2); }
            Op::ZExt => {
                let iw = self.w(na.a);
                if lo >= iw { return self.k(w, 0); }
                if hi < iw { return self.extract(na.a, hi, lo); }
                let x = self.extract(na.a, iw - 1, lo); return self.zext(x, w);
            }
            Op::SExt => { let iw = self.w(na.a); if hi < iw { return self.extract(na.a, hi, lo); } }
            Op::Concat => {
                let lw = self.w(na.b);
                if hi < lw { return self.extract(na.b, hi, lo); }
                if lo >= lw { return self.extract(na.a, hi - lw, lo - lw); }
                let h = self.extract(na.a, hi - lw, 0); let l = self.extract(na.b, lw - 1, lo); return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.kv(na.b).is_some() || w <= 8 { let x = self.extract(na.a, hi, lo); let y = self.extract(na.b, hi, lo); return self.bin(na.op, x, y); }
            }
            Op::Not => { let x = self.extract(na.a, hi, lo); return self.not(x); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(na.a, hi, 0); let y = self.extract(na.b, hi, 0); return self.bin(na.op, x, y); }
            Op::Ite => {
                if self.kv(na.b).is_some() || self.kv(na.c).is_some() { let x = self.extract(na.b, hi, lo); let y = self.extract(na.c, hi, lo); return self.ite(na.a, x, y); }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, v: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const { return self.k(w, (nh.v << nl.w) | nl.v); }
        if nh.op == Op::Const && nh.v == 0 { return self.zext(l, w); }
        // concat(extract(x,hi,m+1), extract(x,m,lo))
        let (xh, lh) = if nh.op == Op::Extract { (nh.a, nh.v as u32) } else { (h, 0) };
        let (xl, ll) = if nl.op == Op::Extract { (nl.a, nl.v as u32) } else { (l, 0) };
        if xh == xl && lh == ll + nl.w && (nh.op == Op::Extract) { return self.extract(xh, lh + nh.w - 1, ll); }
        // zext(x) above y : zext(concat(x,y))
        if nh.op == Op::ZExt { let c = self.concat(nh.a, l); return self.zext(c, w); }
        // concat(a, concat(b, c)) with a,b mergeable
        if nl.op == Op::Concat {
            let hb = self.concat_try(h, nl.a);
            if let Some(x) = hb { return self.concat(x, nl.b); }
        }
        if nh.op == Op::Concat {
            if let Some(x) = self.concat_try(nh.b, l) { return self.concat(nh.a, x); }
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, v: 0 })
    }
    fn concat_try(&mut self, h: E, l: E) -> Option<E> {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Const && nl.op == Op::Const { return Some(self.k(nh.w + nl.w, (nh.v << nl.w) | nl.v)); }
        if nh.op == Op::Extract {
            let (xl, ll) = if nl.op == Op::Extract { (nl.a, nl.v as u32) } else { (l, 0) };
            if nh.a == xl && nh.v as u32 == ll + nl.w { return Some(self.extract(xl, nh.v as u32 + nh.w - 1, ll)); }
        }
        None
    }

    pub fn syms_of(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.syms[e as usize] { return s.clone(); }
        let n = self.n[e as usize];
        let r: Rc<[u32]> = match n.op {
            Op::Const => Rc::from([]),
            Op::Sym => Rc::from([n.a]),
            _ => {
                let kids: &[E] = match n.op { Op::Not | Op::ZExt | Op::SExt | Op::Extract => &[n.a], Op::Ite => &[n.a, n.b, n.c], _ => &[n.a, n.b] };
                let mut v: Vec<u32> = vec![];
                for k in kids { v.extend_from_slice(&self.syms_of(*k)); }
                v.sort_unstable(); v.dedup();
                Rc::from(v)
            }
        };
        self.syms[e as usize] = Some(r.clone());
        r
    }

    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 { self.gen += 1; self.ev(e, model) }
    fn ev(&mut self, e: E, m: &[u128]) -> u128 {
        if self.memo_gen[e as usize] == self.gen { return self.memo[e as usize]; }
        let n = self.n[e as usize];
        let v = match n.op {
            Op::Const => n.v,
            Op::Sym => m.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
            Op::Not => !self.ev(n.a, m) & mask(n.w),
            Op::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => { let iw = self.w(n.a); sx(self.ev(n.a, m), iw) as u128 & mask(n.w) }
            Op::Extract => (self.ev(n.a, m) >> n.v) & mask(n.w),
            Op::Concat => { let lw = self.w(n.b); (self.ev(n.a, m) << lw) | self.ev(n.b, m) }
            op => { let w = self.w(n.a); let x = self.ev(n.a, m); let y = self.ev(n.b, m); Self::eval_bin(op, w, x, y) }
        };
        self.memo[e as usize] = v;
        self.memo_gen[e as usize] = self.gen;
        v
    }

    fn num(&self, w: u32, v: u128) -> Ast { unsafe { let s = std::ffi::CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.z, s.as_ptr(), Z3_mk_bv_sort(self.z, w)) } }
    fn zb(&mut self, e: E) -> Ast {
        if !self.zbool[e as usize].is_null() { return self.zbool[e as usize]; }
        let n = self.n[e as usize];
        let z = self.z;
        unsafe {
            let r = match n.op {
                Op::Const => if n.v == 1 { Z3_mk_true(z) } else { Z3_mk_false(z) },
                Op::Not => { let a = self.zb(n.a); Z3_mk_not(z, a) }
                Op::And => { let a = [self.zb(n.a), self.zb(n.b)]; Z3_mk_and(z, 2, a.as_ptr()) }
                Op::Or => { let a = [self.zb(n.a), self.zb(n.b)]; Z3_mk_or(z, 2, a.as_ptr()) }
                Op::Xor => { let (a, b) = (self.zb(n.a), self.zb(n.b)); Z3_mk_xor(z, a, b) }
                Op::Ite => { let (a, b, c) = (self.zb(n.a), self.zb(n.b), self.zb(n.c)); Z3_mk_ite(z, a, b, c) }
                Op::Eq => { if self.w(n.a) == 1 { let (a, b) = (self.zb(n.a), self.zb(n.b)); Z3_mk_eq(z, a, b) } else { let (a, b) = (self.zv(n.a), self.zv(n.b)); Z3_mk_eq(z, a, b) } }
                Op::Ult => { let (a, b) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvult(z, a, b) }
                Op::Ule => { let (a, b) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvule(z, a, b) }
                Op::Slt => { let (a, b) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvslt(z, a, b) }
                Op::Sle => { let (a, b) = (self.zv(n.a), self.zv(n.b)); Z3_mk_bvsle(z, a, b) }
                _ => { let a = self.zv(e); let one = self.num(1, 1); Z3_mk_eq(z, a, one) }
            };
            self.zbool[e as usize] = r;
            r
        }
    }
    fn zv(&mut self, e: E) -> Ast {
        if !self.zbv[e as usize].is_null() { return self.zbv[e as usize]; }
        let n = self.n[e as usize];
        let z = self.z;
        unsafe {
            let r = match n.op {
                Op::Const => self.num(n.w, n.v),
                Op::Sym => { let s = std::ffi::CString::new(format!("s{}_{}", n.a, n.w)).unwrap(); Z3_mk_const(z, Z3_mk_string_symbol(z, s.as_ptr()), Z3_mk_bv_sort(z, n.w)) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let b = self.zb(e); let (o, t) = (self.num(1, 1), self.num(1, 0)); Z3_mk_ite(z, b, o, t) }
                Op::Not => { let a = self.zv(n.a); Z3_mk_bvnot(z, a) }
                Op::Ite => { let (a, b, c) = (self.zb(n.a), self.zv(n.b), self.zv(n.c)); Z3_mk_ite(z, a, b, c) }
                Op::ZExt => { let a = self.zv(n.a); let iw = self.w(n.a); Z3_mk_zero_ext(z, n.w - iw, a) }
                Op::SExt => { let a = self.zv(n.a); let iw = self.w(n.a); Z3_mk_sign_ext(z, n.w - iw, a) }
                Op::Extract => { let a = self.zv(n.a); Z3_mk_extract(z, n.v as u32 + n.w - 1, n.v as u32, a) }
                _ => {
                    let (a, b) = (self.zv(n.a), self.zv(n.b));
                    match n.op {
                        Op::And => Z3_mk_bvand(z, a, b), Op::Or => Z3_mk_bvor(z, a, b), Op::Xor => Z3_mk_bvxor(z, a, b),
                        Op::Add => Z3_mk_bvadd(z, a, b), Op::Sub => Z3_mk_bvsub(z, a, b), Op::Mul => Z3_mk_bvmul(z, a, b),
                        Op::UDiv => Z3_mk_bvudiv(z, a, b), Op::SDiv => Z3_mk_bvsdiv(z, a, b), Op::URem => Z3_mk_bvurem(z, a, b), Op::SRem => Z3_mk_bvsrem(z, a, b),
                        Op::Shl => Z3_mk_bvshl(z, a, b), Op::LShr => Z3_mk_bvlshr(z, a, b), Op::AShr => Z3_mk_bvashr(z, a, b),
                        Op::Concat => Z3_mk_concat(z, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.zbv[e as usize] = r;
            r
        }
    }

    /// Is the conjunction of `cs` (already a slice) satisfiable?  z3 decides.
    pub fn solve(&mut self, mut cs: Vec<E>) -> Sat {
        cs.sort_unstable(); cs.dedup();
        if cs.iter().any(|c| *c == 0) { return Sat::Unsat; }
        let key: Box<[E]> = cs.into();
        if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; return match r { Some(m) => Sat::Sat(m.clone()), None => Sat::Unsat }; }
        let t0 = std::time::Instant::now();
        let mut syms: Vec<u32> = vec![];
        for c in key.iter() { syms.extend_from_slice(&self.syms_of(*c)); }
        syms.sort_unstable(); syms.dedup();
        let r = unsafe {
            let zs: Vec<Ast> = key.iter().map(|c| self.zb(*c)).collect();
            Z3_solver_push(self.z, self.solver);
            for a in zs { Z3_solver_assert(self.z, self.solver, a); }
            let r = Z3_solver_check(self.z, self.solver);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.z, self.solver);
                Z3_model_inc_ref(self.z, m);
                let mut vals = vec![];
                // find symbol nodes (idx,w): widths are unique per idx along a path
                let nodes = self.sym_nodes(&key);
                for e in nodes {
                    let n = self.n[e as usize];
                    let a = self.zv(e);
                    let mut v: Ast = std::ptr::null_mut();
                    Z3_model_eval(self.z, m, a, true, &mut v);
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.z, v)).to_string_lossy().to_string();
                    vals.push((n.a, s.parse::<u128>().unwrap()));
                }
                Z3_model_dec_ref(self.z, m);
                Sat::Sat(Rc::new(vals))
            } else if r == -1 { Sat::Unsat } else { Sat::Unknown };
            Z3_solver_pop(self.z, self.solver, 1);
            out
        };
        self.stats.queries += 1;
        self.stats.ns += t0.elapsed().as_nanos() as u64;
        match &r {
            Sat::Sat(m) => { self.stats.sat += 1; self.cache.insert(key, Some(m.clone())); }
            Sat::Unsat => { self.stats.unsat += 1; self.cache.insert(key, None); }
            Sat::Unknown => { self.stats.unknown += 1; }
        }
        r
    }
    fn sym_nodes(&mut self, key: &[E]) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = key.to_vec();
        let mut out = vec![];
        while let Some(e) = st.pop() {
            if !seen.insert(e) { continue; }
            let n = self.n[e as usize];
            match n.op {
                Op::Const => {}
                Op::Sym => out.push(e),
                Op::Not | Op::ZExt | Op::SExt | Op::Extract => st.push(n.a),
                Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
                _ => { st.push(n.a); st.push(n.b); }
            }
        }
        out.sort_unstable();
        out
    }
}
