//! Memory: numbered objects, copy on write, per byte symbolic overlay.
use crate::expr::{Ctx, E};
use crate::ir::{FN_BASE, GLOB_BASE, HEAP_BASE, SHIFT, STACK_BASE};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Val { pub c: u128, pub e: E }
impl Val {
    pub const Z: Val = Val { c: 0, e: 0 };
    #[inline] pub fn k(c: u128) -> Val { Val { c, e: 0 } }
}

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<E>, pub ro: bool }

const CH: usize = 64;
#[derive(Clone)]
pub struct Chunk(pub [Option<Rc<Obj>>; CH]);

#[derive(Clone, Default)]
pub struct Table { chunks: Vec<Rc<Chunk>>, pub len: usize }

impl Table {
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.len;
        if i / CH >= self.chunks.len() { self.chunks.push(Rc::new(Chunk([const { None }; CH]))) }
        Rc::make_mut(&mut self.chunks[i / CH]).0[i % CH] = Some(Rc::new(o));
        self.len += 1;
        i
    }
    #[inline] pub fn get(&self, i: usize) -> Option<&Obj> { if i >= self.len { return None; } self.chunks[i / CH].0[i % CH].as_deref() }
    #[inline] pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        if i >= self.len { return None; }
        Rc::make_mut(&mut self.chunks[i / CH]).0[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, i: usize) -> bool {
        if i >= self.len { return false; }
        Rc::make_mut(&mut self.chunks[i / CH]).0[i % CH].take().is_some()
    }
    pub fn truncate(&mut self, n: usize) { while self.len > n { self.len -= 1; let i = self.len; Rc::make_mut(&mut self.chunks[i / CH]).0[i % CH] = None; } }
}

#[derive(Clone, Default)]
pub struct Mem { pub globs: Table, pub heap: Table, pub stack: Table }

pub type R<T> = Result<T, String>;

impl Mem {
    #[inline]
    pub fn obj(&self, addr: u64) -> Option<&Obj> {
        let i = addr >> SHIFT;
        if i >= STACK_BASE { self.stack.get((i - STACK_BASE) as usize) }
        else if i >= HEAP_BASE { self.heap.get((i - HEAP_BASE) as usize) }
        else if i >= GLOB_BASE { self.globs.get((i - GLOB_BASE) as usize) }
        else { None }
    }
    #[inline]
    pub fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let i = addr >> SHIFT;
        if i >= STACK_BASE { self.stack.get_mut((i - STACK_BASE) as usize) }
        else if i >= HEAP_BASE { self.heap.get_mut((i - HEAP_BASE) as usize) }
        else if i >= GLOB_BASE { self.globs.get_mut((i - GLOB_BASE) as usize) }
        else { None }
    }
    pub fn describe(&self, addr: u64) -> String {
        let i = addr >> SHIFT;
        let k = if i >= STACK_BASE { "stack" } else if i >= HEAP_BASE { "heap" } else if i >= GLOB_BASE { "global" } else if i >= FN_BASE { "function" } else { "null page" };
        format!("{:#x} ({} object {}, {})", addr, k, i, match self.obj(addr) { Some(o) => format!("size {} offset {}", o.data.len(), addr & ((1 << SHIFT) - 1)), None => "not allocated".into() })
    }
    pub fn malloc(&mut self, n: u64) -> u64 {
        if n >= (1 << SHIFT) - 64 { return 0; }
        let i = self.heap.push(Obj { data: vec![0; n as usize], sym: vec![], ro: false });
        (HEAP_BASE + i as u64) << SHIFT
    }
    pub fn stack_alloc(&mut self, n: u64) -> u64 {
        let i = self.stack.push(Obj { data: vec![0; n as usize], sym: vec![], ro: false });
        (STACK_BASE + i as u64) << SHIFT
    }
    pub fn free(&mut self, a: u64) -> R<()> {
        let i = a >> SHIFT;
        if i < HEAP_BASE || i >= STACK_BASE || a & ((1 << SHIFT) - 1) != 0 || !self.heap.free((i - HEAP_BASE) as usize) { return Err(format!("invalid free of {}", self.describe(a))); }
        Ok(())
    }
    #[inline]
    pub fn load(&self, cx: &mut Ctx, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        let o = match self.obj(a) { Some(o) if off + n <= o.data.len() => o, _ => return Err(format!("invalid load of {} bytes at {}", n, self.describe(a))) };
        if !o.sym.is_empty() {
            let s = &o.sym[off..off + n];
            if s.iter().any(|e| *e != 0) {
                let mut acc: Option<E> = None;
                for k in (0..n).rev() {
                    let b = if s[k] != 0 { s[k] } else { cx.k(8, o.data[off + k] as u128) };
                    acc = Some(match acc { None => b, Some(h) => cx.concat(h, b) });
                }
                let mut e = acc.unwrap();
                if (n as u32) * 8 != w { e = cx.extract(e, w - 1, 0); }
                if let Some(v) = cx.kv(e) { return Ok(Val::k(v)); }
                return Ok(Val { c: 0, e });
            }
        }
        let mut v = 0u128;
        let d = &o.data[off..off + n];
        match n {
            8 => v = u64::from_le_bytes(d.try_into().unwrap()) as u128,
            1 => v = d[0] as u128,
            4 => v = u32::from_le_bytes(d.try_into().unwrap()) as u128,
            _ => for k in (0..n).rev() { v = (v << 8) | d[k] as u128; }
        }
        if w % 8 != 0 { v &= (1u128 << w) - 1; }
        Ok(Val::k(v))
    }
    #[inline]
    pub fn store(&mut self, cx: &mut Ctx, a: u64, w: u32, v: Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        let ok = match self.obj(a) { Some(o) => off + n <= o.data.len() && !o.ro, None => false };
        if !ok { return Err(format!("invalid store of {} bytes at {}", n, self.describe(a))); }
        let o = self.obj_mut(a).unwrap();
        if v.e != 0 {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            let e = if (n as u32) * 8 != w { cx.zext(v.e, n as u32 * 8) } else { v.e };
            for k in 0..n {
                let b = cx.extract(e, k as u32 * 8 + 7, k as u32 * 8);
                match cx.kv(b) { Some(c) => { o.data[off + k] = c as u8; o.sym[off + k] = 0; } None => { o.data[off + k] = 0; o.sym[off + k] = b; } }
            }
            return Ok(());
        }
        if !o.sym.is_empty() { for k in 0..n { o.sym[off + k] = 0; } }
        match n {
            8 => o.data[off..off + 8].copy_from_slice(&(v.c as u64).to_le_bytes()),
            1 => o.data[off] = v.c as u8,
            4 => o.data[off..off + 4].copy_from_slice(&(v.c as u32).to_le_bytes()),
            _ => { let mut x = v.c; for k in 0..n { o.data[off + k] = x as u8; x >>= 8; } }
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: usize) -> R<(Vec<u8>, Vec<E>)> {
        if n == 0 { return Ok((vec![], vec![])); }
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        match self.obj(a) {
            Some(o) if off + n <= o.data.len() => Ok((o.data[off..off + n].to_vec(), if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == 0) { vec![] } else { o.sym[off..off + n].to_vec() })),
            _ => Err(format!("invalid read of {} bytes at {}", n, self.describe(a))),
        }
    }
    pub fn put(&mut self, a: u64, d: &[u8], s: &[E]) -> R<()> {
        let n = d.len();
        if n == 0 { return Ok(()); }
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        let ok = match self.obj(a) { Some(o) => off + n <= o.data.len() && !o.ro, None => false };
        if !ok { return Err(format!("invalid write of {} bytes at {}", n, self.describe(a))); }
        let o = self.obj_mut(a).unwrap();
        o.data[off..off + n].copy_from_slice(d);
        if s.is_empty() { if !o.sym.is_empty() { for k in 0..n { o.sym[off + k] = 0; } } }
        else {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[off..off + n].copy_from_slice(s);
        }
        Ok(())
    }
    pub fn string(&self, a: u64, n: usize) -> String { match self.bytes(a, n) { Ok((d, _)) => String::from_utf8_lossy(&d).to_string(), Err(_) => "?".into() } }
}
