//! C04: a junction copies every input message to every output exactly once.
use crate::common::*;
use pipeawesome2::junction::Junction;

/// `got` is an interleaving of `ins` (each in order); messages carry their input number in byte 0 and a sequence number in byte 1.
fn interleaving(got: &[Vec<u8>], ins: &[Vec<Vec<u8>>]) {
    let mut next = vec![0; ins.len()];
    for m in got {
        check(m.len() == 3, "a message changed its size");
        let i = m[0] as usize;
        check(i < ins.len(), "unknown message");
        check(next[i] < ins[i].len(), "a message was delivered twice");
        check(same(m, &ins[i][next[i]]), "messages of one input were lost, changed or reordered");
        next[i] += 1;
    }
    for i in 0..ins.len() { check(next[i] == ins[i].len(), "completed although messages of an input are missing"); }
}

pub fn inputs(n: usize, max: usize) -> Vec<Vec<Vec<u8>>> {
    (0..n).map(|i| { let k = choice("count", max + 1); (0..k).map(|s| vec![i as u8, s as u8, any_u8("m")]).collect() }).collect()
}

fn copies(n_in: usize, n_out: usize, max: usize, delays: usize, prio: bool) {
    expect("done");
    let ins = inputs(n_in, max);
    budget(delays, 0);
    let mut j = Junction::new();
    j.set_stdout_size(1);
    let mut txs = vec![];
    for i in 0..n_in {
        let (t, r) = bounded(1);
        let p = if prio { choice("priority", 2) as isize } else { 0 };
        check(j.add_input(Pull::Receiver(pj(10 + i, 1), r), p).is_ok(), "a junction refused an input");
        txs.push(t);
    }
    let mut rxs = vec![];
    for o in 0..n_out {
        match j.add_output(OutputPort::Out, Breakable::Terminate, 1, 20 + o) { Ok(p) => rxs.push(rx(p)), Err(_) => check(false, "a junction refused an output") }
    }
    let prod = join_all(txs.into_iter().zip(ins.iter()).map(|(t, d)| produce(t, d)));
    let cons = join_all(rxs.into_iter().map(collect));
    let (sent, r, got) = block_on(join3(prod, j.start(None), cons));
    check(r.is_ok(), "a junction without faults failed");
    for i in 0..n_in { check(sent[i] == ins[i].len(), "a junction stopped reading an input"); }
    for g in &got { interleaving(g, &ins); }
    for g in got.iter().skip(1) { check(same_list(g, &got[0]), "outputs saw different sequences"); }
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c04_copies() { copies(2, 2, 2, 3, true); }
/// nothing to copy to: the inputs are read to their ends all the same
#[no_mangle]
pub extern "C" fn h_c04_none() { copies(2, 0, 3, 2, true); }
#[no_mangle]
pub extern "C" fn h_c04_three() { copies(3, 1, 1, 2, true); }
#[no_mangle]
pub extern "C" fn t_c04_copies() { copies(2, 2, 3, 4, true); }
#[no_mangle]
pub extern "C" fn t_c04_three() { copies(3, 2, 2, 3, true); }

/// One output closes early (Consume / Finish / Terminate): the others still get everything or, with Terminate, a prefix.
fn partial(max: usize, delays: usize) {
    for c in ["terminate", "finish", "consume"] { expect(c); }
    let br = breakable();
    let ins = inputs(2, max);
    let total: usize = ins.iter().map(|x| x.len()).sum();
    let k = choice("accepted", 2);
    let mut j = Junction::new();
    j.set_stdout_size(1);
    let mut txs = vec![];
    for i in 0..2 {
        let (t, r) = bounded(1);
        let _ = j.add_input(Pull::Receiver(pj(10 + i, 1), r), 0);
        txs.push(t);
    }
    let first = choice("which", 2);
    let mk = |j: &mut Junction, b, d| match j.add_output(OutputPort::Out, b, 1, d) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
    let (a, b);
    if first == 0 { a = mk(&mut j, br, 20); b = mk(&mut j, Breakable::Terminate, 21); } else { b = mk(&mut j, Breakable::Terminate, 21); a = mk(&mut j, br, 20); }
    budget(delays, 0);
    let run = async move { j.start(None).await };
    let prod = join_all(txs.into_iter().zip(ins.iter()).map(|(t, d)| produce(t, d)));
    let (_sent, (r, ga, gb)) = block_on(join(prod, join3(run, collect_some(a, k), collect(b))));
    check(prefix_list(&ga, &gb) | prefix_list(&gb, &ga), "outputs saw different sequences");
    match (br, r) {
        (Breakable::Terminate, Err(MotionError::OutputClosed(x, ..))) => { check(x.dst == 20, "wrong link named"); cover("terminate"); }
        (Breakable::Terminate, Ok(_)) => check(total <= k + 1, "no error although an output closed"),
        (_, Ok(_)) => { interleaving(&gb, &ins); if total > k + 1 { cover(if br == Breakable::Finish { "finish" } else { "consume" }); } }
        _ => check(false, "wrong result"),
    }
}
#[no_mangle]
pub extern "C" fn h_c04_partial() { partial(2, 2); }
#[no_mangle]
pub extern "C" fn t_c04_partial() { partial(3, 4); }

/// Long streams, one of them much longer than the other.
fn many(n: usize, m: usize) {
    expect("done");
    rounds_limit(20 * (n + m));
    let mk = |i: u8, n: usize| -> Vec<Vec<u8>> { (0..n).map(|s| vec![i, s as u8, (s >> 8) as u8]).collect() };
    let mut ins = vec![mk(0, n), mk(1, m), mk(2, 3)];
    let at = [0, m / 2, m - 1][choice("at", 3)];
    ins[1][at][2] = any_u8("m");
    let mut j = Junction::new();
    j.set_stdout_size([1, 8][choice("room", 2)]);
    let prio = [[0, 0, 0], [0, 1, 2], [2, 1, 0]][choice("priorities", 3)];
    let mut txs = vec![];
    for i in 0..3 { let (t, r) = bounded(8); check(j.add_input(Pull::Receiver(pj(10 + i, 1), r), prio[i]).is_ok(), "a junction refused an input"); txs.push(t); }
    let mut rxs = vec![];
    for o in 0..3 { match j.add_output(OutputPort::Out, Breakable::Terminate, 1, 20 + o) { Ok(p) => rxs.push(rx(p)), Err(_) => check(false, "a junction refused an output") } }
    let prod = join_all(txs.into_iter().zip(ins.iter()).map(|(t, d)| produce(t, d)));
    let (sent, r, got) = block_on(join3(prod, j.start(None), join_all(rxs.into_iter().map(collect))));
    match r { Ok(c) => check(c == n + m + 6, "the count is not the number of reads"), Err(_) => check(false, "a junction without faults failed") }
    for i in 0..3 { check(sent[i] == ins[i].len(), "a junction stopped reading an input"); }
    for g in &got { interleaving(g, &ins); check(same_list(g, &got[0]), "outputs saw different sequences"); }
    cover("done");
}
#[no_mangle]
pub extern "C" fn h_c04_many() { many(600, 90); }
#[no_mangle]
pub extern "C" fn t_c04_many() { many(3000, 1100); }

/// Many inputs and many outputs.
fn wide(n_in: usize, n_out: usize, per: usize) {
    expect("done");
    rounds_limit(3000);
    let mut ins: Vec<Vec<Vec<u8>>> = (0..n_in).map(|i| (0..1 + (i / 3) % per + if i % 3 == 2 { 3 } else { 0 }).map(|s| vec![i as u8, s as u8, 0]).collect()).collect();
    ins[choice("which", n_in)][0][2] = any_u8("m");
    // one of them has nothing to say
    ins[(n_in + choice("empty", 3) - 1) % n_in].clear();
    let levels = choice("priorities", 3);
    let mut j = Junction::new();
    j.set_stdout_size(1);
    let mut txs = vec![];
    for i in 0..n_in {
        let (t, r) = bounded(1);
        let p = [0, i as isize % 3, n_in as isize - i as isize][levels];
        check(j.add_input(Pull::Receiver(pj(10 + i, 1), r), p).is_ok(), "a junction refused an input");
        txs.push(t);
    }
    let mut rxs = vec![];
    for o in 0..n_out { match j.add_output(OutputPort::Out, lazy_br(o), 1, 30 + o) { Ok(p) => rxs.push(rx(p)), Err(_) => check(false, "a junction refused an output") } }
    let prod = join_all(txs.into_iter().zip(ins.iter()).map(|(t, d)| produce(t, d)));
    let (sent, r, got) = block_on(join3(prod, j.start(None), join_all(rxs.into_iter().map(collect))));
    check(r.is_ok(), "a junction without faults failed");
    for i in 0..n_in { check(sent[i] == ins[i].len(), "a junction stopped reading an input"); }
    for g in &got { interleaving(g, &ins); check(same_list(g, &got[0]), "outputs saw different sequences"); }
    cover("done");
}
fn lazy_br(k: usize) -> Breakable { [Breakable::Terminate, Breakable::Finish, Breakable::Consume][k % 3] }
#[no_mangle]
pub extern "C" fn h_c04_wide() { wide(12, 11, 4); }
#[no_mangle]
pub extern "C" fn t_c04_wide() { wide(40, 40, 9); }
