//! C29: messages are passed on without waiting for later ones.
use crate::common::*;
use crate::conf::*;
use async_std::sx::Step;

struct Shape { name: &'static str, links: &'static [&'static str], from: &'static str, outs: &'static [&'static str], marks: Option<(usize, usize)> }
const SHAPES: [Shape; 15] = [
    Shape { name: "to a program", links: &["l:src l:rcv"], from: "src", outs: &["l:rcv"], marks: None },
    Shape { name: "standard error", links: &["l:src/E l:rcv"], from: "err", outs: &["l:rcv"], marks: None },
    Shape { name: "to standard output", links: &["l:src d:-"], from: "src", outs: &["d:-"], marks: None },
    Shape { name: "to standard error", links: &["l:src d:_"], from: "src", outs: &["d:_"], marks: None },
    Shape { name: "junction", links: &["l:src j:j l:rcv"], from: "src", outs: &["l:rcv"], marks: None },
    Shape { name: "buffer", links: &["l:src b:b l:rcv"], from: "src", outs: &["l:rcv"], marks: None },
    Shape { name: "regulator", links: &["l:src r:r l:rcv"], from: "src", outs: &["l:rcv"], marks: None },
    Shape { name: "regulated buffer", links: &["l:src r:r b:b l:rcv"], from: "src", outs: &["l:rcv"], marks: Some((3, 9)) },
    Shape { name: "program", links: &["l:src l:cat l:rcv"], from: "src", outs: &["l:rcv"], marks: None },
    Shape { name: "long", links: &["l:src j:j b:b r:r l:cat j:k d:-"], from: "src", outs: &["d:-"], marks: None },
    Shape { name: "copies", links: &["l:src j:j l:rcv", "j:j d:-", "j:j b:b d:_"], from: "src", outs: &["l:rcv", "d:-", "d:_"], marks: None },
    Shape { name: "beside a silent one", links: &["l:src j:j l:rcv", "l:silent j:j"], from: "src", outs: &["l:rcv"], marks: None },
    Shape { name: "beside two silent ones", links: &["l:silent j:j d:-", "l:mute j:j", "l:src j:j"], from: "src", outs: &["d:-"], marks: None },
    Shape { name: "exit status", links: &["l:done/X d:-", "l:silent d:_"], from: "exit", outs: &["d:-"], marks: None },
    Shape { name: "both outputs", links: &["l:src j:j l:rcv", "l:src/E l:cat d:-"], from: "src", outs: &["l:rcv"], marks: None },
];
/// The source is silent from its first messages on until round `pause`.
fn prompt(pause: usize, lengths: &[&[usize]], late: usize, delays: usize, splits: usize, cap: usize) {
    for s in &SHAPES { expect(s.name) }
    let s = &SHAPES[choice("shape", SHAPES.len())];
    // Arbitrary are the first bytes of three messages: more of them only multiply the paths
    let text = |(i, n): (usize, &usize)| { let mut l = vec![if i < 3 { any_u8("b") } else { b'b' }]; assume(l[0] != b'\n'); while l.len() + 1 < *n { l.push(b'x') } l.push(b'\n'); l };
    let data: Vec<Vec<u8>> = lengths[choice("messages", lengths.len())].iter().enumerate().map(text).collect();
    let more: Vec<Vec<u8>> = (0..late).map(|i| vec![b'0' + i as u8, b'\n']).collect();
    let step = |l: &Vec<u8>| if s.from == "err" { Step::Err(l.clone()) } else { Step::Out(l.clone()) };
    let mut v: Vec<Step> = data.iter().map(step).collect();
    v.push(Step::Until(pause));
    v.extend(more.iter().map(step));
    sx::program("src", v);
    sx::program("rcv", vec![Step::ReadAll]);
    sx::program("cat", vec![Step::Cat]);
    sx::program("done", vec![Step::Exit(3)]);
    for m in ["silent", "mute"] { sx::program(m, vec![Step::Until(pause + 50)]); }
    sx::with(|w| { w.pipe_capacity = cap; w.max_rounds = 400 + 4 * pause; });
    budget(delays, splits);
    let mut w = waiter(auto(s.links, Breakable::Terminate, s.marks, &["b"]));
    check(block_on(w.start(None)).is_ok(), "failed without a fault");
    let (first, all) = if s.from == "exit" { (b"3".to_vec(), b"3".to_vec()) } else { (flat(&data), flat(&[data, more].concat())) };
    for o in s.outs {
        let (then, finally) = match *o {
            "l:rcv" => proc("rcv", |p| { let all = [&p.received[..], &p.stdin_pipe[..]].concat(); (all[..sx::before(&p.given_at, pause)].to_vec(), all) }),
            // std writes standard error at once, and standard output by the line; what ends is flushed
            o => the_file(if o == "d:-" { sx::STDOUT } else { sx::STDERR }, |f| (f.content[..sx::before(&f.written_at, pause)].to_vec(), f.content.clone())),
        };
        note(&format!("{} {} {} of {}, finally {} of {}", s.name, o, then.len(), first.len(), finally.len(), all.len()));
        check(same(&then, &first), "a message waited for a later one");
        check(same(&finally, &all), "not everything was delivered");
    }
    cover(s.name);
}
#[no_mangle]
pub extern "C" fn h_c29_prompt() { prompt(700, &[&[2], &[2, 3, 2], &[3, 3, 2, 3, 4, 3, 3, 3, 2, 3, 5, 3], &[255], &[254], &[256], &[200, 55], &[510], &[1024], &[3, 507, 255]], 2, 0, 0, 4096) }
#[no_mangle]
pub extern "C" fn h_c29_late() { prompt(110, &[&[2, 3]], 1, 1, 0, 4) }
#[no_mangle]
pub extern "C" fn t_c29_late() { prompt(150, &[&[2, 3], &[255], &[2, 254, 2], &[300]], 1, 1, 0, 64) }
