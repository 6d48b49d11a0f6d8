//! C05: junction inputs are served by priority level, equals share fairly.
use crate::common::*;
use pipeawesome2::junction::Junction;

/// Everything is waiting before the junction starts; priorities are arbitrary machine integers.
fn preloaded(n: usize, max: usize) {
    let prio: Vec<isize> = (0..n).map(|_| any_isize("priority")).collect();
    let count: Vec<usize> = (0..n).map(|_| choice("count", max + 1)).collect();
    waiting(n, max, prio, count)
}
fn waiting(n: usize, max: usize, prio: Vec<isize>, count: Vec<usize>) {
    expect("equal"); expect("different"); expect("negative"); expect("idle");
    // the inputs end at once, or are idle for as long as anything waits
    let open = choice("idle", 2) == 1;
    let total: usize = count.iter().sum();
    let mut j = Junction::new();
    j.set_stdout_size(n * max + 1);
    let mut keep = vec![];
    for i in 0..n {
        let (t, r) = bounded(max + 1);
        for s in 0..count[i] { let _ = t.try_send(IOData(vec![i as u8, s as u8])); }
        if open { keep.push(t) } else { t.close(); }
        let _ = j.add_input(Pull::Receiver(pj(10 + i, 1), r), prio[i]);
    }
    let out = match j.add_output(OutputPort::Out, Breakable::Terminate, 1, 20) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
    let consumer = async {
        let mut got: Vec<Vec<u8>> = vec![];
        loop {
            if got.len() == total { for t in &keep { t.close(); } }
            match out.recv().await { Ok(IOData(d)) => got.push(d), Err(_) => return got }
        }
    };
    let (r, got) = block_on(join(j.start(None), consumer));
    check(r.is_ok(), "failed");
    let mut left = count.clone();
    let mut taken: Vec<usize> = vec![0; n];
    for m in &got {
        let i = m[0] as usize;
        check(left[i] > 0, "delivered twice");
        for k in 0..n { if left[k] > 0 && k != i { check(!(prio[k] < prio[i]), "a message was taken while one with a lower priority number was waiting"); } }
        left[i] -= 1;
        taken[i] += 1;
        for k in 0..n {
            // i must not be served a second time while k, of the same level, still waits for its first turn of the round
            if k != i && left[k] > 0 { check(!((prio[k] == prio[i]) & (taken[i] > taken[k] + 1)), "an input was served again before another of the same priority got its turn"); }
        }
    }
    check(left.iter().all(|x| *x == 0), "messages lost");
    if open { cover("idle") }
    if n > 1 { if prio[0] == prio[1] { cover("equal") } else { cover("different") } if prio[0] < 0 { cover("negative") } }
}
#[no_mangle]
pub extern "C" fn h_c05_preloaded() { preloaded(3, 2); }
/// More inputs: in any order of arbitrary priorities, or many.
#[no_mangle]
pub extern "C" fn t_c05_five() {
    let prio: Vec<isize> = (0..5).map(|_| any_isize("priority")).collect();
    waiting(5, 3, prio, [[2, 2, 2, 2, 2], [0, 1, 3, 1, 2], [1, 3, 0, 2, 2]][choice("counts", 3)].to_vec());
}
#[no_mangle]
pub extern "C" fn h_c05_levels() {
    let n = [6, 9, 17, 40][choice("inputs", 4)];
    let (a, b) = (n as isize, [1, 2, 3, 7][choice("levels", 4)]);
    let order = choice("order", 3);
    let prio: Vec<isize> = (0..n as isize).map(|i| (match order { 0 => i, 1 => a - i, _ => (i * 11 + 5) % a } / b - a / b / 2) * if b == 7 { 1 << 40 } else { 1 }).collect();
    let count: Vec<usize> = (0..n).map(|i| [3, 1, 4, 0, 2, 4][i % 6]).collect();
    waiting(n, 4, prio, count);
}
#[no_mangle]
pub extern "C" fn t_c05_preloaded() { preloaded(4, 2); }

/// Messages arrive while the junction runs: at most one round of an already
/// chosen level (and what its output channel holds) comes before a message of lower number.
fn arriving(n: usize, delays: usize) {
    expect("overtake");
    let lo = any_isize("low");
    let hi = any_isize("high");
    assume(lo < hi);
    let mut j = Junction::new();
    j.set_stdout_size(1);
    let (tl, rl) = bounded(8);
    let order = choice("order", 2);
    let hs: Vec<(Sender<IOData>, Receiver<IOData>)> = (0..2).map(|_| bounded(8)).collect();
    if order == 0 { let _ = j.add_input(Pull::Receiver(pj(9, 1), rl.clone()), lo); }
    let mut ht = vec![];
    for (i, (t, r)) in hs.into_iter().enumerate() {
        for s in 0..n { let _ = t.try_send(IOData(vec![i as u8, s as u8])); }
        let _ = j.add_input(Pull::Receiver(pj(10 + i, 1), r), hi);
        ht.push(t);
    }
    if order == 1 { let _ = j.add_input(Pull::Receiver(pj(9, 1), rl), lo); }
    let out = match j.add_output(OutputPort::Out, Breakable::Terminate, 1, 20) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
    budget(delays, 0);
    let when = choice("when", 2 * n);
    let consumer = async {
        let mut got: Vec<Vec<u8>> = vec![];
        let mut pushed = false;
        loop {
            if got.len() == when && !pushed { pushed = true; let _ = tl.try_send(IOData(vec![9])); let _ = tl.try_send(IOData(vec![9])); tl.close(); for t in &ht { t.close(); } }
            dawdle().await;
            match out.recv().await { Ok(IOData(d)) => got.push(d), Err(_) => return got }
        }
    };
    let (r, got) = block_on(join(j.start(None), consumer));
    check(r.is_ok(), "failed");
    check(got.len() == 2 * n + 2, "messages lost");
    let first = got.iter().position(|m| m[0] == 9).unwrap_or(99);
    // in the channel (1), being written (1), rest of the round that had begun (1)
    check(first <= when + 3, "a waiting message of lower priority number was not preferred");
    // once the low level is served its next message comes before any other
    check(got[first + 1][0] == 9, "a waiting message of lower priority number was not preferred");
    if first < 2 * n { cover("overtake") }
}
#[no_mangle]
pub extern "C" fn h_c05_arriving() { arriving(3, 2); }
#[no_mangle]
pub extern "C" fn t_c05_arriving() { arriving(4, 4); }

/// Many messages wait on every input; the priorities are few or arbitrary.
#[no_mangle]
pub extern "C" fn h_c05_many() {
    expect("done");
    rounds_limit(20000);
    let (n, m) = (4, 200);
    let prio: Vec<isize> = (0..n).map(|_| [-1, 0, 5][choice("priority", 3)]).collect();
    let mut j = Junction::new();
    j.set_stdout_size(n * m + 1);
    for i in 0..n {
        let (t, r) = bounded(m + 1);
        for s in 0..m { let _ = t.try_send(IOData(vec![i as u8, s as u8])); }
        t.close();
        let _ = j.add_input(Pull::Receiver(pj(10 + i, 1), r), prio[i]);
    }
    let out = match j.add_output(OutputPort::Out, Breakable::Terminate, 1, 20) { Ok(p) => rx(p), Err(_) => { check(false, "refused"); end() } };
    let (r, got) = block_on(join(j.start(None), collect(out)));
    check(r.is_ok() && got.len() == n * m, "messages lost");
    let mut taken = vec![0; n];
    for g in &got {
        let i = g[0] as usize;
        for k in 0..n {
            if k == i || taken[k] == m { continue; }
            check(prio[k] >= prio[i], "a message was taken while one with a lower priority number was waiting");
            if prio[k] == prio[i] { check(taken[i] <= taken[k], "an input was served again before another of the same priority got its turn"); }
        }
        taken[i] += 1;
    }
    cover("done");
}
