//! Components behind one interface.
#![allow(dead_code)]
use crate::common::*;
use pipeawesome2::buffer::Buffer;
use pipeawesome2::drain::Drain;
use pipeawesome2::faucet::Faucet;
use pipeawesome2::junction::Junction;
use pipeawesome2::launch::Launch;
use pipeawesome2::regulator::Regulator;
use std::collections::HashMap;

pub type LaunchS = Launch<HashMap<String, String>, String, String, Vec<String>, String, String, String>;
pub fn launch(id: usize, cmd: &str) -> LaunchS { Launch::new(id, None, None, cmd.to_string(), None) }

pub enum Comp { F(Faucet), R(Regulator), B(Buffer), J(Junction), L(LaunchS), D(Drain) }
impl Comp {
    /// 0 faucet of file "in" with this content, 1 regulator, 2 buffer, 3 junction, 4 launch of "p", 5 drain to file "out"
    pub fn new(kind: usize, content: &[Vec<u8>], out_size: usize) -> Comp {
        match kind {
            0 => { sx::add_file("in", flat(content)); let mut f = Faucet::new("in".to_string()); f.set_stdout_size(out_size); Comp::F(f) }
            1 => { let mut r = Regulator::new(); r.set_stdout_size(out_size); Comp::R(r) }
            2 => { let mut r = Buffer::new(); r.set_stdout_size(out_size); Comp::B(r) }
            3 => { let mut r = Junction::new(); r.set_stdout_size(out_size); Comp::J(r) }
            4 => Comp::L(launch(3, "p")),
            _ => Comp::D(Drain::new("out".to_string())),
        }
    }
    pub fn connectable(&mut self) -> &mut dyn Connectable {
        match self { Comp::F(x) => x, Comp::R(x) => x, Comp::B(x) => x, Comp::J(x) => x, Comp::L(x) => x, Comp::D(x) => x }
    }
    pub fn output(&mut self, br: Breakable, src: usize, dst: usize) -> Pull { self.output_port(OutputPort::Out, br, src, dst) }
    pub fn output_port(&mut self, p: OutputPort, br: Breakable, src: usize, dst: usize) -> Pull {
        match self.connectable().add_output(p, br, src, dst) { Ok(p) => p, Err(_) => { check(false, "an output was refused"); end() } }
    }
    pub fn input(&mut self, p: Pull) { if self.connectable().add_input(p, 0).is_err() { check(false, "an input was refused"); } }
    pub async fn run(mut self) -> MotionResult<usize> { self.start(None).await }
    pub async fn start(&mut self, spy: Option<Sender<SpyMessage>>) -> MotionResult<usize> {
        match self { Comp::F(x) => x.start(spy).await, Comp::R(x) => x.start(spy).await, Comp::B(x) => x.start(spy).await, Comp::J(x) => x.start(spy).await, Comp::L(x) => x.start(spy).await, Comp::D(x) => x.start(None).await }
    }
}
