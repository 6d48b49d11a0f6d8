//! The command line program, unmodified, over the stand-in for clap and the
//! virtual standard streams.
#![allow(dead_code)]
mod program {
    include!("/repo/src/bin/pa2.rs");
    pub fn run() { main() }
}
use crate::common::*;
use std::cell::UnsafeCell;

struct Hook(UnsafeCell<Option<Box<dyn FnOnce(Outcome)>>>);
unsafe impl Sync for Hook {}
static HOOK: Hook = Hook(UnsafeCell::new(None));

pub struct Outcome { pub code: i32, pub out: String, pub err: String }
fn text(v: &[u8]) -> String { match std::str::from_utf8(v) { Ok(s) => s.to_string(), Err(_) => { check(false, "what was printed is not text"); end() } } }
fn finish(code: i32) -> ! {
    let w = sxstd::world::get();
    sxstd::order::set_mode(0);
    let o = Outcome { code, out: text(&w.stdout), err: text(&w.stderr) };
    if let Some(f) = unsafe { (*HOOK.0.get()).take() } { f(o) }
    end()
}
fn refused(_: String) -> ! { finish(2) }

/// Runs `pa2 args`, then `then` on what came out; does not return.
pub fn pa2(args: &[&str], files: &[(&str, &str)], stdin: &str, then: impl FnOnce(Outcome) + 'static) -> ! {
    clap::set_args(args);
    clap::on_refusal(refused);
    let w = sxstd::world::get();
    w.files = files.iter().map(|(n, d)| (n.to_string(), d.as_bytes().to_vec())).collect();
    w.stdin = stdin.as_bytes().to_vec();
    w.on_exit = Some(finish);
    unsafe { *HOOK.0.get() = Some(Box::new(then)) }
    program::run();
    finish(0)
}
