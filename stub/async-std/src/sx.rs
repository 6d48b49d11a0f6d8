//! The virtual world.
use std::cell::UnsafeCell;
use std::future::Future;
use std::io;
use std::pin::Pin;

/// One thing a modelled program does.
#[derive(Clone, Debug)]
pub enum Step {
    /// Read one chunk of standard input (blocks until there is one or end of file).
    Read,
    /// Read standard input to its end.
    ReadAll,
    /// Read standard input to its end, echoing every chunk to standard output.
    Cat,
    /// Answers each line of standard input (given with a counter of its own) with lines on standard output,
    /// until end of file or until it says it is done.
    Answer(fn(&mut usize, &[u8]) -> (Vec<u8>, bool)),
    Out(Vec<u8>),
    Err(Vec<u8>),
    /// Does nothing until the scheduler has gone through this many rounds.
    Until(usize),
    CloseIn,
    CloseOut,
    CloseErr,
    /// Exit with a code (closes everything).
    Exit(i32),
    /// Ended by a signal.
    Signal(i32),
}

/// What a program was started with.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Spawned {
    pub program: String,
    pub args: Vec<String>,
    pub envs: Vec<(String, String)>,
    pub env_clear: bool,
    pub dir: Option<String>,
    pub stdin: u8,
    pub stdout: u8,
    pub stderr: u8,
}
pub const INHERIT: u8 = 0;
pub const NULL: u8 = 1;
pub const PIPED: u8 = 2;

pub struct Program { pub name: String, pub steps: Vec<Step>, pub spawn_error: bool }

pub struct Proc {
    pub info: Spawned,
    pub steps: Vec<Step>,
    pub pc: usize,
    pub stdin_pipe: Vec<u8>,
    pub stdin_open_w: bool,
    pub stdin_open_r: bool,
    pub out_pipe: Vec<u8>,
    pub out_open_w: bool,
    pub out_open_r: bool,
    pub err_pipe: Vec<u8>,
    pub err_open_w: bool,
    pub err_open_r: bool,
    pub received: Vec<u8>,
    /// how often the program met end-of-file on its standard input
    pub saw_eof: bool,
    pub lost_out: Vec<u8>,
    /// Everything the program wrote into its output pipes.
    pub all_out: Vec<u8>,
    pub all_err: Vec<u8>,
    pub status: Option<i32>,
    pub status_taken: usize,
    /// (round, bytes put into its standard input so far), (round, bytes written to standard output so far)
    pub given_at: Vec<(usize, usize)>,
    pub out_at: Vec<(usize, usize)>,
    pub err_at: Vec<(usize, usize)>,
    /// counter and unanswered input of `Step::Answer`
    pub sub: usize,
    pub held: Vec<u8>,
}

pub struct VFile {
    pub name: String,
    pub content: Vec<u8>,
    pub exists: bool,
    pub open_error: bool,
    pub create_error: bool,
    /// fail (once reached) when this many bytes were read / written
    pub read_error_at: Option<usize>,
    pub write_error_at: Option<usize>,
    pub flush_error: bool,
    pub opened: usize,
    /// How often its end was reached by a reader.
    pub eofs: usize,
    pub created: usize,
    /// bytes written but not yet flushed
    pub unflushed: Vec<u8>,
    pub broken_pipe: bool,
    /// (round, bytes read so far), (round, bytes written so far, flushed or not)
    pub read_at: Vec<(usize, usize)>,
    pub written_at: Vec<(usize, usize)>,
}
/// The amount reached before this round.
pub fn before(log: &[(usize, usize)], round: usize) -> usize { log.iter().filter(|x| x.0 < round).map(|x| x.1).last().unwrap_or(0) }


pub struct World {
    pub files: Vec<VFile>,
    pub programs: Vec<Program>,
    pub procs: Vec<Proc>,
    /// How many times an external operation may still be "not ready yet".
    pub delays: usize,
    /// How many times a timer may still overrun by a round.
    pub sleep_delays: usize,
    /// How many more reads / writes may move fewer bytes than possible.
    pub splits: usize,
    pub sleeps: Vec<u64>,
    /// the round in which each sleep began
    pub slept_at: Vec<usize>,
    pub rounds: usize,
    pub max_rounds: usize,
    pub pipe_capacity: usize,
    /// (program, its stream, bytes until it fails)
    pub pipe_faults: Vec<(String, u8, usize)>,
    /// How often waiting for a program fails before it works again.
    pub wait_errors: usize,
    /// What kinds of error a fault may be, when it is not to be the usual one.
    pub kinds: Vec<io::ErrorKind>,
    pub read_eofs: usize,
    pub spawned: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
}

struct Cell(UnsafeCell<Option<World>>);
unsafe impl Sync for Cell {}
static WORLD: Cell = Cell(UnsafeCell::new(None));

fn fresh() -> World {
    World {
        files: vec![], programs: vec![], procs: vec![], delays: 0, sleep_delays: 0, splits: 0,
        sleeps: vec![], slept_at: vec![], rounds: 0, max_rounds: 400, pipe_capacity: 4096, pipe_faults: vec![], kinds: vec![], wait_errors: 0, read_eofs: 0, spawned: vec![],
    }
}

/// Single threaded access; `f` must not call back into `with`.
pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    unsafe {
        let w = &mut *WORLD.0.get();
        if w.is_none() { *w = Some(fresh()); }
        f(w.as_mut().unwrap())
    }
}

pub const STDIN: &str = "\u{1}stdin";
pub const STDOUT: &str = "\u{1}stdout";
pub const STDERR: &str = "\u{1}stderr";

impl VFile {
    pub fn new(name: &str) -> VFile {
        VFile { name: name.to_string(), content: vec![], exists: true, open_error: false, create_error: false, read_error_at: None,
            write_error_at: None, flush_error: false, opened: 0, eofs: 0, created: 0, unflushed: vec![], broken_pipe: false, read_at: vec![], written_at: vec![] }
    }
}

/// Index of the virtual file, adding it when it is not there.
pub fn file(name: &str) -> usize {
    with(|w| {
        if let Some(i) = w.files.iter().position(|f| f.name == name) { return i; }
        let mut f = VFile::new(name);
        f.exists = name.starts_with('\u{1}');
        w.files.push(f);
        w.files.len() - 1
    })
}
pub fn add_file(name: &str, content: Vec<u8>) -> usize {
    let i = file(name);
    with(|w| { w.files[i].content = content; w.files[i].exists = true; });
    i
}
pub fn find_file(name: &str) -> Option<usize> { with(|w| w.files.iter().position(|f| f.name == name)) }
pub fn content(name: &str) -> Vec<u8> { let i = file(name); with(|w| w.files[i].content.clone()) }
pub fn unflushed(name: &str) -> Vec<u8> { let i = file(name); with(|w| w.files[i].unflushed.clone()) }

pub fn program(name: &str, steps: Vec<Step>) {
    with(|w| w.programs.push(Program { name: name.to_string(), steps, spawn_error: false }))
}
pub fn program_unlaunchable(name: &str) {
    with(|w| { w.programs.retain(|p| p.name != name); w.programs.push(Program { name: name.to_string(), steps: vec![], spawn_error: true }) })
}

/// Is the external operation that is being polled not ready yet?
pub fn delay() -> bool {
    if with(|w| w.delays == 0) { return false; }
    if sxrt::choice("delay", 2) == 1 { with(|w| w.delays -= 1); true } else { false }
}
pub fn delay_sleep() -> bool {
    if with(|w| w.sleep_delays == 0) { return false; }
    if sxrt::choice("oversleep", 2) == 1 { with(|w| w.sleep_delays -= 1); true } else { false }
}
/// How many of `n` possible bytes move now.
pub fn amount(n: usize) -> usize {
    if n <= 1 || with(|w| w.splits == 0) { return n; }
    let c = sxrt::choice("amount", n);
    if c == 0 { n } else { with(|w| w.splits -= 1); c }
}

/// The error a fault is: the usual one, or any of those allowed.
pub fn fault(usual: io::ErrorKind) -> io::Error {
    let k = with(|w| w.kinds.clone());
    io::Error::from(if k.is_empty() { usual } else { k[sxrt::choice("error kind", k.len())] })
}

pub fn read_from(i: usize, pos: &mut usize, buf: &mut [u8]) -> io::Result<usize> {
    let (len, err) = with(|w| (w.files[i].content.len(), w.files[i].read_error_at));
    let mut n = std::cmp::min(buf.len(), len - *pos);
    if let Some(e) = err {
        if *pos >= e { return Err(fault(io::ErrorKind::InvalidInput)); }
        n = std::cmp::min(n, e - *pos);
    }
    if n == 0 { with(|w| { w.read_eofs += 1; w.files[i].eofs += 1; }); return Ok(0); }
    let n = amount(n);
    with(|w| buf[..n].copy_from_slice(&w.files[i].content[*pos..*pos + n]));
    *pos += n;
    with(|w| { let r = w.rounds; w.files[i].read_at.push((r, *pos)); });
    Ok(n)
}

pub fn write_to(i: usize, data: &[u8]) -> io::Result<usize> {
    let (have, err, bp) = with(|w| { let f = &w.files[i]; (f.content.len() + f.unflushed.len(), f.write_error_at, f.broken_pipe) });
    let mut n = data.len();
    if let Some(e) = err {
        if have >= e { return Err(if bp { io::Error::from(io::ErrorKind::BrokenPipe) } else { fault(io::ErrorKind::InvalidInput) }); }
        n = std::cmp::min(n, e - have);
    }
    let n = amount(n);
    with(|w| {
        w.files[i].unflushed.extend_from_slice(&data[..n]);
        let x = (w.rounds, have + n);
        w.files[i].written_at.push(x);
    });
    Ok(n)
}

pub fn flush(i: usize) -> io::Result<()> {
    if with(|w| w.files[i].flush_error) { return Err(fault(io::ErrorKind::InvalidInput)); }
    with(|w| {
        let u = std::mem::take(&mut w.files[i].unflushed);
        w.files[i].content.extend_from_slice(&u);
        Ok(())
    })
}

impl Proc {
    fn end(&mut self, raw: i32) {
        self.status = Some(raw);
        self.stdin_open_r = false;
        self.out_open_w = false;
        self.err_open_w = false;
        self.pc = self.steps.len();
    }
    /// Runs the program until it blocks or ends.
    pub fn advance(&mut self, cap: usize, rounds: usize) {
        loop {
            if self.status.is_some() { return; }
            if self.pc >= self.steps.len() { self.end(0); return; }
            match self.steps[self.pc].clone() {
                Step::Read | Step::ReadAll | Step::Cat => {
                    let kind = match self.steps[self.pc] { Step::Read => 0, Step::ReadAll => 1, _ => 2 };
                    if !self.stdin_open_r { self.pc += 1; continue; }
                    if self.stdin_pipe.is_empty() {
                        if self.stdin_open_w && self.info.stdin == PIPED { return; }
                        self.saw_eof = true;
                        self.pc += 1;
                        continue;
                    }
                    if kind == 2 && self.info.stdout == PIPED && self.out_open_r && self.out_pipe.len() >= cap { return; }
                    let d = std::mem::take(&mut self.stdin_pipe);
                    self.received.extend_from_slice(&d);
                    if kind == 2 && !self.put_out(&d, rounds) { return; }
                    if kind == 0 { self.pc += 1; }
                }
                Step::Answer(f) => {
                    if !self.stdin_open_r { self.pc += 1; continue; }
                    if self.info.stdout == PIPED && self.out_open_r && self.out_pipe.len() >= cap { return; }
                    if !self.held.contains(&b'\n') {
                        let d = std::mem::take(&mut self.stdin_pipe);
                        self.received.extend_from_slice(&d);
                        self.held.extend_from_slice(&d);
                    }
                    match self.held.iter().position(|b| *b == b'\n') {
                        Some(i) => {
                            let rest = self.held.split_off(i + 1);
                            let line = std::mem::replace(&mut self.held, rest);
                            let (out, done) = f(&mut self.sub, &line);
                            if !out.is_empty() && !self.put_out(&out, rounds) { return; }
                            if done { self.pc += 1; }
                        }
                        None => {
                            if self.stdin_open_w && self.info.stdin == PIPED { return; }
                            self.saw_eof = true;
                            self.pc += 1;
                        }
                    }
                }
                Step::Out(d) => {
                    if self.info.stdout == PIPED && self.out_open_w && self.out_open_r && self.out_pipe.len() >= cap { return; }
                    self.pc += 1;
                    if !self.put_out(&d, rounds) { return; }
                }
                Step::Err(d) => {
                    if self.info.stderr == PIPED && self.err_open_w {
                        if self.err_open_r && self.err_pipe.len() >= cap { return; }
                        if !self.err_open_r { self.end(13); return; }
                        self.err_pipe.extend_from_slice(&d);
                        self.all_err.extend_from_slice(&d);
                        self.err_at.push((rounds, self.all_err.len()));
                    }
                    self.pc += 1;
                }
                Step::Until(n) => { if rounds < n { return; } self.pc += 1; }
                Step::CloseIn => { self.stdin_open_r = false; self.pc += 1; }
                Step::CloseOut => { self.out_open_w = false; self.pc += 1; }
                Step::CloseErr => { self.err_open_w = false; self.pc += 1; }
                Step::Exit(c) => { self.end((c & 0xff) << 8); }
                Step::Signal(s) => { self.end(s & 0x7f); }
            }
        }
    }
    /// false: the program was ended by SIGPIPE
    fn put_out(&mut self, d: &[u8], rounds: usize) -> bool {
        if self.info.stdout == PIPED {
            if !self.out_open_w { return true; } // its own closed descriptor: an error it ignores
            if !self.out_open_r { self.lost_out.extend_from_slice(d); self.end(13); return false; }
            self.out_pipe.extend_from_slice(d);
            self.all_out.extend_from_slice(d);
            self.out_at.push((rounds, self.all_out.len()));
        }
        true
    }
}

/// Whether the pipe to (0) or from (1, 2) program `i` fails after this many bytes.
pub fn pipe_fails(i: usize, stream: u8, moved: usize) -> bool {
    with(|w| !w.pipe_faults.is_empty() && w.pipe_faults.iter().any(|f| f.1 == stream && moved >= f.2 && f.0 == w.procs[i].info.program))
}
/// Lets program `i` run as far as it can.
pub fn advance(i: usize) { with(|w| { let (cap, rounds) = (w.pipe_capacity, w.rounds); w.procs[i].advance(cap, rounds) }) }

/// Starts over with an empty world (used by the native test of this model).
pub fn reset() { unsafe { *WORLD.0.get() = Some(fresh()); } }
