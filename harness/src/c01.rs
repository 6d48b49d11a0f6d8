//! C01: byte streams are cut into lines exactly.
use crate::common::*;
use async_std::process::{Command, Stdio};

fn source(kind: usize, data: &[u8]) -> (Pull, Option<async_std::process::Child>) {
    let c = ReadSplitControl::new();
    match kind {
        0 => {
            sx::add_file("f", data.to_vec());
            (Pull::File(pj(1, 2), block_on(async_std::fs::File::open("f")).unwrap(), c), None)
        }
        1 => { sx::add_file(sx::STDIN, data.to_vec()); (Pull::Stdin(pj(1, 2), async_std::io::stdin(), c), None) }
        k => {
            let out: Vec<sx::Step> = if k == 2 { vec![sx::Step::Out(data.to_vec())] } else { vec![sx::Step::Err(data.to_vec())] };
            sx::program("p", out);
            let mut ch = Command::new("p").stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
            if k == 2 { (Pull::CmdStdout(pj(1, 2), ch.stdout.take().unwrap(), c), Some(ch)) } else { (Pull::CmdStderr(pj(1, 2), ch.stderr.take().unwrap(), c), Some(ch)) }
        }
    }
}

fn lines(kind: usize, data: &[u8]) {
    let n = data.len();
    let (mut pull, _child) = source(kind, data);
    let mut at = 0;
    loop {
        match block_on(motion_read(&mut pull, false)) {
            Ok(IODataWrapper::IOData(IOData(v))) => {
                check(!v.is_empty(), "a message is empty");
                check(at + v.len() <= n, "more bytes delivered than read");
                check(same(&v, &data[at..at + v.len()]), "delivered bytes differ from the bytes read");
                at += v.len();
                let mut inner = false;
                for i in 0..v.len() - 1 { inner |= v[i] == b'\n'; }
                check(!inner, "a message contains a line terminator before its end");
                check((v[v.len() - 1] == b'\n') | (at == n), "a message that is not the last lacks a terminator");
            }
            Ok(IODataWrapper::Finished) => break,
            Ok(IODataWrapper::Skipped) => check(false, "a blocking read was skipped"),
            Err(_) => check(false, "read error without a fault"),
        }
    }
    check(at == n, "finished before every byte was delivered");
    if kind < 2 { check(sx::with(|w| w.read_eofs) >= 1, "finished without having seen end of file"); }
    // still finished when asked again
    check(matches!(block_on(motion_read(&mut pull, false)), Ok(IODataWrapper::Finished)), "data after the stream was finished");
}

#[no_mangle]
pub extern "C" fn h_c01_lines() {
    expect("done");
    let d = upto("b", 4);
    budget(1, 4);
    lines(0, &d);
    cover("done");
}

/// Every kind of stream.
#[no_mangle]
pub extern "C" fn h_c01_kinds() {
    for k in ["0", "1", "2", "3"] { expect(k); }
    let k = choice("kind", 4);
    let d = upto("b", 3);
    budget(1, 3);
    lines(k, &d);
    cover(["0", "1", "2", "3"][k]);
}

/// Terminators around the end of the reader's internal buffer (255 bytes).
fn boundary(lo: usize, hi: usize, total: usize, splits: usize) {
    expect("done");
    let mut d = vec![b'a'; total];
    for i in lo..hi { d[i] = any_u8("b"); }
    budget(0, splits);
    lines(0, &d);
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c01_boundary() { boundary(253, 257, 258, 0); }
#[no_mangle]
pub extern "C" fn h_c01_boundary2() { boundary(508, 512, 513, 0); }

/// Lines far longer than any buffer; arbitrary bytes at `at`.
fn long(total: usize, at: &[usize]) {
    expect("done");
    let mut d = vec![b'a'; total];
    for i in at { d[*i] = any_u8("b"); }
    budget(0, 0);
    lines(0, &d);
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c01_long() { long(2100, &[999, 1023, 2047]); }
#[no_mangle]
pub extern "C" fn h_c01_longer() { long(9000, &[8191]); }

/// More lines than one read returns, of equal length.
fn many(lines_: usize, len: usize) {
    expect("done");
    let mut d = vec![];
    let k = choice("odd", 3) * (lines_ / 2 - 1);
    for i in 0..lines_ { for _ in 0..if i == k { len + 1 } else { len } { d.push(b'x'); } d.push(b'\n'); }
    d[k * (len + 1)] = any_u8("b");
    budget(0, 0);
    lines(0, &d);
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c01_many() { many(300, 3); }
#[no_mangle]
pub extern "C" fn h_c01_empty_lines() { many(300, 0); }

// ---- thorough
#[no_mangle]
pub extern "C" fn h_c01_long2() { long(5000, &[999, 1000, 1023, 2047, 4095, 4096]); }
#[no_mangle]
pub extern "C" fn h_c01_longer2() { long(66000, &[32767, 65535]); }
#[no_mangle]
pub extern "C" fn h_c01_many2() { many(2000, 4); }
#[no_mangle]
pub extern "C" fn t_c01_lines() {
    expect("done");
    let d = upto("b", 7);
    budget(1, 7);
    lines(0, &d);
    cover("done");
}
#[no_mangle]
pub extern "C" fn t_c01_kinds() {
    for k in ["0", "1", "2", "3"] { expect(k); }
    let k = choice("kind", 4);
    let d = upto("b", 5);
    budget(2, 5);
    lines(k, &d);
    cover(["0", "1", "2", "3"][k]);
}
#[no_mangle]
pub extern "C" fn t_c01_boundary() { boundary(250, 260, 262, 0); }
