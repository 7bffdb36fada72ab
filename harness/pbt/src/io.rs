//! Scripted streams: reads and writes that split, interrupt and fail on a schedule.
use std::io::{self, Read, Write};

/// Step of a read or write schedule.
#[derive(Clone, Debug, PartialEq)]
pub enum Step { Chunk(usize), Interrupt }

#[derive(Clone, Debug, Default)]
pub struct Sched { pub steps: Vec<Step>, pub cycle: bool }
impl Sched {
    pub fn whole() -> Sched { Sched::default() }
    pub fn gen(s: &mut crate::Src, interrupts: bool) -> Sched {
        match s.below(6) {
            0 => Sched::whole(),
            1 => Sched { steps: vec![Step::Chunk(1)], cycle: true },
            2 => { let n = 1 + s.below(40) as usize; Sched { steps: vec![Step::Chunk(n)], cycle: true } }
            k => {
                let n = 1 + s.usize_below(12);
                let big = k == 5;
                let steps = (0..n).map(|_| {
                    if interrupts && s.chance(1, 4) { Step::Interrupt }
                    else { let c = if big { s.int(14) } else { s.below(12) }; Step::Chunk(1 + c as usize) }
                }).collect::<Vec<_>>();
                let cycle = steps.iter().any(|s| matches!(s, Step::Chunk(_)));
                Sched { steps, cycle }
            }
        }
    }
}
/// Reader over a byte string with a schedule and optionally an error at an offset.
pub struct ScriptRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sched: Sched,
    pub at: usize,
    /// Error returned (again and again) once `pos` reached the offset.
    pub fault: Option<(usize, io::ErrorKind)>,
    pub fault_hits: usize,
    /// The fault happens once only; afterwards the stream works again.
    pub once: bool,
    /// The stream says "end" once at this offset, and then goes on.
    pub false_end: Option<usize>,
    pub eof_hits: usize,
    pub interrupts: usize,
    pub calls: usize,
    pub max_request: usize,
}
impl<'a> ScriptRead<'a> {
    pub fn new(data: &'a [u8], sched: Sched) -> Self {
        ScriptRead { data, pos: 0, sched, at: 0, fault: None, fault_hits: 0, once: false, false_end: None, eof_hits: 0, interrupts: 0, calls: 0, max_request: 0 }
    }
}
pub const FAULT_MSG: &str = "injected fault";
fn next(sched: &Sched, at: &mut usize) -> Option<Step> {
    let n = sched.steps.len();
    if n == 0 { return None; }
    let i = if sched.cycle { *at % n } else { *at };
    *at += 1;
    sched.steps.get(i).cloned()
}
impl<'a> Read for ScriptRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.max_request = self.max_request.max(buf.len());
        if buf.is_empty() { return Ok(0); }
        let max = match next(&self.sched, &mut self.at) {
            Some(Step::Interrupt) => { self.interrupts += 1; return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")); }
            Some(Step::Chunk(n)) => n,
            None => usize::MAX,
        };
        let mut limit = self.data.len();
        if let Some((off, kind)) = self.fault {
            if self.pos >= off { self.fault_hits += 1; if self.once { self.fault = None; } return Err(io::Error::new(kind, FAULT_MSG)); }
            limit = limit.min(off);
        }
        if let Some(off) = self.false_end {
            if self.pos >= off { self.false_end = None; self.eof_hits += 1; return Ok(0); }
            limit = limit.min(off);
        }
        let n = max.min(buf.len()).min(limit - self.pos);
        if n == 0 { self.eof_hits += 1; }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        // Bytes beyond those returned may be scribbled on by a reader; make mistakes visible.
        self.pos += n;
        Ok(n)
    }
}
/// What a failing sink does.
#[derive(Clone, Debug, PartialEq)]
pub enum WFault { Err(io::ErrorKind), Zero }
pub struct ScriptWrite {
    pub out: Vec<u8>,
    pub sched: Sched,
    pub at: usize,
    pub fault: Option<(usize, WFault)>,
    pub fault_hits: usize,
    pub once: bool,
    pub calls: usize,
}
impl ScriptWrite {
    pub fn new(sched: Sched) -> Self { ScriptWrite { out: Vec::new(), sched, at: 0, fault: None, fault_hits: 0, once: false, calls: 0 } }
}
impl Write for ScriptWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() { return Ok(0); }
        let max = match next(&self.sched, &mut self.at) {
            Some(Step::Interrupt) => return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            Some(Step::Chunk(n)) => n,
            None => usize::MAX,
        };
        let mut n = max.min(buf.len());
        if let Some((off, ref f)) = self.fault {
            if self.out.len() >= off {
                self.fault_hits += 1;
                let f = f.clone();
                if self.once { self.fault = None; }
                return match f { WFault::Err(k) => Err(io::Error::new(k, FAULT_MSG)), WFault::Zero => Ok(0) };
            }
            n = n.min(off - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
