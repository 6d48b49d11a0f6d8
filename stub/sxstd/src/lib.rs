//! `std` with `HashMap` / `HashSet` replaced by association lists.
//!
//! pipeawesome2 is compiled with `--extern std=<this crate>`, so its source is
//! unmodified.  Keys are compared with `==` only (no hashing: SipHash over
//! symbolic bytes would be hopeless for a solver and its result is not
//! observable except through iteration order).  Iteration order, which the
//! real containers leave unspecified, is chosen by the harness: insertion
//! order, or an arbitrary (symbolically chosen) permutation.
pub use std::*;

pub mod collections {
    pub use std::collections::*;
    pub use super::hm::{HashMap, HashSet};
    pub mod hash_map {
        pub use crate::hm::*;
        pub use std::collections::hash_map::{RandomState, DefaultHasher};
    }
    pub mod hash_set {
        pub use crate::hm::HashSet;
        pub use crate::hm::set_iter::*;
    }
}

pub mod process {
    pub use std::process::*;
    /// `std::process::Stdio` is opaque; this one can be looked at by the process model.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Stdio { Inherit, Null, Piped }
    impl Stdio {
        pub fn piped() -> Stdio { Stdio::Piped }
        pub fn null() -> Stdio { Stdio::Null }
        pub fn inherit() -> Stdio { Stdio::Inherit }
    }
    /// Leaves through the harness's hook, when there is one.
    pub fn exit(code: i32) -> ! {
        match crate::world::get().on_exit { Some(f) => f(code), None => std::process::exit(code) }
    }
}

pub mod world {
    //! The files and standard streams that synchronous code sees.
    use std::cell::UnsafeCell;
    pub struct World { pub files: Vec<(String, Vec<u8>)>, pub stdin: Vec<u8>, pub stdout: Vec<u8>, pub stderr: Vec<u8>, pub on_exit: Option<fn(i32) -> !>, /* standard output takes this many bytes, then fails */ pub stdout_room: Option<usize>, pub broken_pipe: bool }
    struct Cell(UnsafeCell<World>);
    unsafe impl Sync for Cell {}
    static W: Cell = Cell(UnsafeCell::new(World { files: Vec::new(), stdin: Vec::new(), stdout: Vec::new(), stderr: Vec::new(), on_exit: None, stdout_room: None, broken_pipe: false }));
    /// Single-threaded, as everything here.
    pub fn get() -> &'static mut World { unsafe { &mut *W.0.get() } }
    /// As many of these bytes as standard output takes.
    pub fn out(b: &[u8]) -> std::io::Result<usize> {
        let w = get();
        let mut n = b.len();
        if let Some(room) = w.stdout_room {
            if n > room { n = room }
            if n == 0 && b.len() > 0 { return Err(std::io::Error::from(if w.broken_pipe { std::io::ErrorKind::BrokenPipe } else { std::io::ErrorKind::InvalidInput })) }
            w.stdout_room = Some(room - n);
        }
        w.stdout.extend_from_slice(&b[..n]);
        Ok(n)
    }
    pub struct To(pub u8);
    impl std::fmt::Write for To { fn write_str(&mut self, s: &str) -> std::fmt::Result { let w = get(); if self.0 == 1 { let mut b = s.as_bytes(); while b.len() > 0 { match out(b) { Ok(n) => b = &b[n..], Err(_) => panic!("failed printing to stdout") } } } else { w.stderr.extend_from_slice(s.as_bytes()) } Ok(()) } }
    pub fn print(to: u8, a: std::fmt::Arguments, nl: bool) { use std::fmt::Write; let _ = To(to).write_fmt(a); if nl { let _ = To(to).write_str("\n"); } }
}
#[macro_export]
macro_rules! print { ($($a:tt)*) => { $crate::world::print(1, ::std::format_args!($($a)*), false) }; }
#[macro_export]
macro_rules! println { () => { $crate::world::print(1, ::std::format_args!(""), true) }; ($($a:tt)*) => { $crate::world::print(1, ::std::format_args!($($a)*), true) }; }
#[macro_export]
macro_rules! eprint { ($($a:tt)*) => { $crate::world::print(2, ::std::format_args!($($a)*), false) }; }
#[macro_export]
macro_rules! eprintln { () => { $crate::world::print(2, ::std::format_args!(""), true) }; ($($a:tt)*) => { $crate::world::print(2, ::std::format_args!($($a)*), true) }; }

pub mod prelude {
    pub mod v1 { pub use std::prelude::v1::*; pub use crate::{print, println, eprint, eprintln}; }
    pub mod rust_2015 { pub use std::prelude::rust_2015::*; pub use crate::{print, println, eprint, eprintln}; }
    pub mod rust_2018 { pub use std::prelude::rust_2018::*; pub use crate::{print, println, eprint, eprintln}; }
    pub mod rust_2021 { pub use std::prelude::rust_2021::*; pub use crate::{print, println, eprint, eprintln}; }
    pub mod rust_2024 { pub use std::prelude::rust_2024::*; pub use crate::{print, println, eprint, eprintln}; }
}

pub mod fs {
    pub use std::fs::*;
    use std::io::{Error, ErrorKind, Read, Result};
    use std::path::Path;
    pub struct File { d: Vec<u8>, at: usize }
    fn content<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
        let n = p.as_ref().to_string_lossy().into_owned();
        crate::world::get().files.iter().find(|f| f.0 == n).map(|f| f.1.clone()).ok_or_else(|| Error::from(ErrorKind::NotFound))
    }
    impl File { pub fn open<P: AsRef<Path>>(p: P) -> Result<File> { content(p).map(|d| File { d, at: 0 }) } }
    impl Read for File { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let n = b.len().min(self.d.len() - self.at); b[..n].copy_from_slice(&self.d[self.at..self.at + n]); self.at += n; Ok(n) } }
    pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> { content(p) }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> { String::from_utf8(content(p)?).map_err(|_| Error::from(ErrorKind::InvalidData)) }
}

pub mod io {
    pub use std::io::*;
    pub struct Stdin;
    pub struct Stdout;
    pub struct Stderr;
    pub type StdinLock<'a> = std::io::BufReader<Stdin>;
    pub fn stdin() -> Stdin { Stdin }
    pub fn stdout() -> Stdout { Stdout }
    pub fn stderr() -> Stderr { Stderr }
    pub fn read_to_string<R: Read>(mut r: R) -> Result<String> { let mut s = String::new(); r.read_to_string(&mut s)?; Ok(s) }
    impl Stdin {
        pub fn lock(&self) -> std::io::BufReader<Stdin> { std::io::BufReader::new(Stdin) }
        pub fn read_line(&self, s: &mut String) -> Result<usize> { let w = crate::world::get(); let n = w.stdin.iter().position(|b| *b == b'\n').map_or(w.stdin.len(), |i| i + 1); let l: Vec<u8> = w.stdin.drain(..n).collect(); s.push_str(&String::from_utf8(l).map_err(|_| Error::from(ErrorKind::InvalidData))?); Ok(n) }
        pub fn lines(self) -> std::io::Lines<std::io::BufReader<Stdin>> { std::io::BufReader::new(self).lines() }
    }
    impl Read for Stdin { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let w = crate::world::get(); let n = b.len().min(w.stdin.len()); b[..n].copy_from_slice(&w.stdin[..n]); w.stdin.drain(..n); Ok(n) } }
    impl Stdout { pub fn lock(&self) -> Stdout { Stdout } }
    impl Stderr { pub fn lock(&self) -> Stderr { Stderr } }
    impl Write for Stdout { fn write(&mut self, b: &[u8]) -> Result<usize> { crate::world::out(b) } fn flush(&mut self) -> Result<()> { Ok(()) } }
    impl Write for Stderr { fn write(&mut self, b: &[u8]) -> Result<usize> { crate::world::get().stderr.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> Result<()> { Ok(()) } }
}

pub mod env {
    pub use std::env::*;
    /// The process environment is fixed.
    pub fn current_dir() -> std::io::Result<std::path::PathBuf> { Ok(std::path::PathBuf::from("/cwd")) }
    pub fn vars_os() -> std::vec::IntoIter<(std::ffi::OsString, std::ffi::OsString)> {
        vec![(std::ffi::OsString::from("PATH"), std::ffi::OsString::from("/bin"))].into_iter()
    }
    pub fn vars() -> std::vec::IntoIter<(String, String)> { vec![("PATH".to_string(), "/bin".to_string())].into_iter() }
}

pub mod order {
    //! How iteration orders are chosen.
    use std::sync::atomic::{AtomicUsize, Ordering};
    /// 0 insertion order; 1 every permutation (for up to 3 elements; rotations and
    /// reversal beyond that), chosen anew for each iteration; 2 one choice per
    /// execution between insertion order and its reverse.
    pub static MODE: AtomicUsize = AtomicUsize::new(0);
    static REV: AtomicUsize = AtomicUsize::new(0);
    pub fn set_mode(m: usize) {
        MODE.store(m, Ordering::Relaxed);
        if m == 2 { REV.store(sxrt::choice("map_order", 2), Ordering::Relaxed); }
    }
    pub fn perm(n: usize) -> Vec<usize> {
        let id: Vec<usize> = (0..n).collect();
        if n < 2 { return id; }
        match MODE.load(Ordering::Relaxed) {
            0 => id,
            2 => if REV.load(Ordering::Relaxed) == 1 { id.into_iter().rev().collect() } else { id },
            _ => {
                if n <= 3 {
                    let mut rest = id;
                    let mut out = vec![];
                    while !rest.is_empty() {
                        let i = sxrt::choice("map_perm", rest.len());
                        out.push(rest.remove(i));
                    }
                    out
                } else {
                    let r = sxrt::choice("map_rot", n + 1);
                    if r == n { id.into_iter().rev().collect() } else {
                        let mut v = id; v.rotate_left(r); v
                    }
                }
            }
        }
    }
}

pub mod hm {
    use std::borrow::Borrow;
    use std::collections::hash_map::RandomState;
    use std::fmt;
    use std::hash::{Hash, BuildHasher};
    use std::marker::PhantomData;
    use std::ops::Index;

    fn ord<T>(v: Vec<T>) -> Vec<T> {
        let p = crate::order::perm(v.len());
        let mut o: Vec<Option<T>> = v.into_iter().map(Some).collect();
        p.into_iter().map(|i| o[i].take().unwrap()).collect()
    }

    pub struct HashMap<K, V, S = RandomState> { e: Vec<(K, V)>, _s: PhantomData<fn() -> S> }

    impl<K, V> HashMap<K, V, RandomState> {
        #[inline] pub fn new() -> Self { HashMap { e: Vec::new(), _s: PhantomData } }
        #[inline] pub fn with_capacity(_n: usize) -> Self { Self::new() }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_hasher(_h: S) -> Self { HashMap { e: Vec::new(), _s: PhantomData } }
        pub fn with_capacity_and_hasher(_n: usize, _h: S) -> Self { HashMap { e: Vec::new(), _s: PhantomData } }
        pub fn capacity(&self) -> usize { self.e.len() }
        pub fn len(&self) -> usize { self.e.len() }
        pub fn is_empty(&self) -> bool { self.e.is_empty() }
        pub fn clear(&mut self) { self.e.clear() }
        pub fn iter(&self) -> Iter<'_, K, V> { Iter { v: ord(self.e.iter().map(|(k, v)| (k, v)).collect()).into_iter() } }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { v: ord(self.e.iter_mut().map(|(k, v)| (&*k, v)).collect()).into_iter() } }
        pub fn keys(&self) -> Keys<'_, K, V> { Keys { i: self.iter() } }
        pub fn values(&self) -> Values<'_, K, V> { Values { i: self.iter() } }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { i: self.iter_mut() } }
        pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys { i: self.into_iter() } }
        pub fn into_values(self) -> IntoValues<K, V> { IntoValues { i: self.into_iter() } }
        pub fn drain(&mut self) -> IntoIter<K, V> { IntoIter { v: ord(std::mem::take(&mut self.e)).into_iter() } }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.e.retain_mut(|(k, v)| f(k, v)) }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
        pub fn reserve(&mut self, _n: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        fn pos<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            self.e.iter().position(|(x, _)| x.borrow() == k)
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.pos(k).map(|i| &self.e[i].1) }
        pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { self.pos(k).map(|i| (&self.e[i].0, &self.e[i].1)) }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.e[i].1), None => None } }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.pos(&k) {
                Some(i) => Some(std::mem::replace(&mut self.e[i].1, v)),
                None => { self.e.push((k, v)); None }
            }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.pos(k).map(|i| self.e.remove(i).1) }
        pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.pos(k).map(|i| self.e.remove(i)) }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            match self.pos(&k) {
                Some(i) => Entry::Occupied(OccupiedEntry { m: &mut self.e, i, k: Some(k) }),
                None => Entry::Vacant(VacantEntry { m: &mut self.e, k }),
            }
        }
    }

    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    pub struct OccupiedEntry<'a, K, V> { m: &'a mut Vec<(K, V)>, i: usize, k: Option<K> }
    pub struct VacantEntry<'a, K, V> { m: &'a mut Vec<(K, V)>, k: K }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.m[self.i].0 }
        pub fn get(&self) -> &V { &self.m[self.i].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.m[self.i].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.m[self.i].1 }
        pub fn insert(&mut self, v: V) -> V { std::mem::replace(&mut self.m[self.i].1, v) }
        pub fn remove(self) -> V { self.m.remove(self.i).1 }
        pub fn remove_entry(self) -> (K, V) { self.m.remove(self.i) }
        pub fn replace_key(mut self) -> K { let k = self.k.take().unwrap(); std::mem::replace(&mut self.m[self.i].0, k) }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.k }
        pub fn into_key(self) -> K { self.k }
        pub fn insert(self, v: V) -> &'a mut V { self.m.push((self.k, v)); &mut self.m.last_mut().unwrap().1 }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, d: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(d) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) } }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => { let x = f(&v.k); v.insert(x) } } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(Default::default) }
        pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    }

    macro_rules! it {
        ($n:ident, [$($g:tt)*], $item:ty, $f:ident, $inner:ty, |$x:ident| $map:expr) => {
            pub struct $n<$($g)*> { $f: $inner }
            impl<$($g)*> Iterator for $n<$($g)*> {
                type Item = $item;
                #[inline] fn next(&mut self) -> Option<$item> { match self.$f.next() { Some($x) => Some($map), None => None } }
                #[inline] fn size_hint(&self) -> (usize, Option<usize>) { self.$f.size_hint() }
            }
            impl<$($g)*> ExactSizeIterator for $n<$($g)*> {}
            impl<$($g)*> std::iter::FusedIterator for $n<$($g)*> {}
        };
    }
    it!(Iter, ['a, K, V], (&'a K, &'a V), v, std::vec::IntoIter<(&'a K, &'a V)>, |x| x);
    it!(IterMut, ['a, K, V], (&'a K, &'a mut V), v, std::vec::IntoIter<(&'a K, &'a mut V)>, |x| x);
    it!(IntoIter, [K, V], (K, V), v, std::vec::IntoIter<(K, V)>, |x| x);
    it!(Keys, ['a, K, V], &'a K, i, Iter<'a, K, V>, |x| x.0);
    it!(Values, ['a, K, V], &'a V, i, Iter<'a, K, V>, |x| x.1);
    it!(ValuesMut, ['a, K, V], &'a mut V, i, IterMut<'a, K, V>, |x| x.1);
    it!(IntoKeys, [K, V], K, i, IntoIter<K, V>, |x| x.0);
    it!(IntoValues, [K, V], V, i, IntoIter<K, V>, |x| x.1);
    pub type Drain<'a, K, V> = IntoIter<K, V>;
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { v: self.v.clone() } } }
    impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys { i: self.i.clone() } } }
    impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values { i: self.i.clone() } } }

    impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter { v: ord(self.e).into_iter() } } }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
    impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> { fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, t: T) { for (k, v) in t { self.insert(k, v); } } }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> { fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, t: T) { for (k, v) in t { self.insert(*k, *v); } } }
    impl<K: Eq + Hash, V, S: BuildHasher + Default> std::iter::FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<T: IntoIterator<Item = (K, V)>>(t: T) -> Self { let mut m = HashMap { e: Vec::new(), _s: PhantomData }; m.extend(t); m } }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
    impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { e: Vec::new(), _s: PhantomData } } }
    impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { e: self.e.clone(), _s: PhantomData } } }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
    impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.e.len() == o.e.len() && self.e.iter().all(|(k, v)| o.get(k).map_or(false, |x| *v == *x)) } }
    impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }

    impl<K: serde::Serialize, V: serde::Serialize, S> serde::Serialize for HashMap<K, V, S> {
        fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.collect_map(self.iter()) }
    }
    impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>, S: BuildHasher + Default> serde::Deserialize<'de> for HashMap<K, V, S> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct Vis<K, V, S>(PhantomData<(K, V, S)>);
            impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>, S: BuildHasher + Default> serde::de::Visitor<'de> for Vis<K, V, S> {
                type Value = HashMap<K, V, S>;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
                fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                    let mut m = HashMap::default();
                    while let Some((k, v)) = a.next_entry()? { m.insert(k, v); }
                    Ok(m)
                }
            }
            d.deserialize_map(Vis(PhantomData))
        }
    }

    pub struct HashSet<T, S = RandomState> { m: HashMap<T, (), S> }
    pub mod set_iter {
        pub type Iter<'a, T> = super::Keys<'a, T, ()>;
        pub type IntoIter<T> = super::IntoKeys<T, ()>;
    }
    impl<T> HashSet<T, RandomState> {
        pub fn new() -> Self { HashSet { m: HashMap::new() } }
        pub fn with_capacity(_n: usize) -> Self { Self::new() }
    }
    impl<T, S> HashSet<T, S> {
        pub fn with_hasher(h: S) -> Self { HashSet { m: HashMap::with_hasher(h) } }
        pub fn len(&self) -> usize { self.m.len() }
        pub fn is_empty(&self) -> bool { self.m.is_empty() }
        pub fn clear(&mut self) { self.m.clear() }
        pub fn iter(&self) -> Keys<'_, T, ()> { self.m.keys() }
        pub fn drain(&mut self) -> IntoKeys<T, ()> { IntoKeys { i: self.m.drain() } }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.m.retain(|k, _| f(k)) }
    }
    impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
        pub fn reserve(&mut self, _n: usize) {}
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(k) }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&T> where T: Borrow<Q> { self.m.get_key_value(k).map(|x| x.0) }
        pub fn insert(&mut self, k: T) -> bool { if self.m.contains_key(&k) { false } else { self.m.e.push((k, ())); true } }
        pub fn replace(&mut self, k: T) -> Option<T> { let o = self.take(&k); self.m.e.push((k, ())); o }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool where T: Borrow<Q> { self.m.remove(k).is_some() }
        pub fn take<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<T> where T: Borrow<Q> { self.m.remove_entry(k).map(|x| x.0) }
        pub fn is_subset(&self, o: &Self) -> bool { self.m.e.iter().all(|(k, _)| o.contains(k)) }
        pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
        pub fn is_disjoint(&self, o: &Self) -> bool { !self.m.e.iter().any(|(k, _)| o.contains(k)) }
        pub fn union<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> { let mut v: Vec<&T> = self.m.e.iter().map(|x| &x.0).collect(); v.extend(o.m.e.iter().map(|x| &x.0).filter(|k| !self.contains(*k))); ord(v).into_iter() }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> { ord(self.m.e.iter().map(|x| &x.0).filter(|k| o.contains(*k)).collect()).into_iter() }
        pub fn difference<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> { ord(self.m.e.iter().map(|x| &x.0).filter(|k| !o.contains(*k)).collect()).into_iter() }
        pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> { let mut v: Vec<&T> = self.m.e.iter().map(|x| &x.0).filter(|k| !o.contains(*k)).collect(); v.extend(o.m.e.iter().map(|x| &x.0).filter(|k| !self.contains(*k))); ord(v).into_iter() }
    }
    impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = IntoKeys<T, ()>; fn into_iter(self) -> IntoKeys<T, ()> { self.m.into_keys() } }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Keys<'a, T, ()>; fn into_iter(self) -> Keys<'a, T, ()> { self.m.keys() } }
    impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, t: I) { for k in t { self.insert(k); } } }
    impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = &'a T>>(&mut self, t: I) { for k in t { self.insert(*k); } } }
    impl<T: Eq + Hash, S: BuildHasher + Default> std::iter::FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(t: I) -> Self { let mut m = HashSet { m: HashMap::default() }; m.extend(t); m } }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
    impl<T, S> Default for HashSet<T, S> { fn default() -> Self { HashSet { m: HashMap::default() } } }
    impl<T: Clone, S> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet { m: self.m.clone() } } }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
    impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) } }
    impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
    impl<T: serde::Serialize, S> serde::Serialize for HashSet<T, S> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.collect_seq(self.iter()) } }
    impl<'de, T: serde::Deserialize<'de> + Eq + Hash, S: BuildHasher + Default> serde::Deserialize<'de> for HashSet<T, S> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Vec::<T>::deserialize(d)?.into_iter().collect()) }
    }
}
