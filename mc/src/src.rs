//! Scripted byte sources: every answer a source can give is decided by the harness.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Chunk { Full, Uniform(usize), Cuts(Vec<usize>) }
#[derive(Clone, Copy, Debug)]
pub struct Fault { pub at: usize, pub kind: ErrorKind, pub persistent: bool, pub os: bool }
#[derive(Default, Debug)]
pub struct Stat { pub reads: Cell<usize>, pub delivered: Cell<usize>, pub faults: Cell<usize>, pub eofs: Cell<usize>, pub at_fault: Cell<usize>, pub wanted: RefCell<Vec<usize>> }

pub struct Src { pub data: Rc<[u8]>, pub pos: usize, pub chunk: Chunk, pub scribble: Option<u8>, pub fault: Option<Fault>, pub fuel: usize, pub st: Rc<Stat>, pub avail: Option<Rc<Cell<usize>>> }
impl Src {
    pub fn new(data: &[u8]) -> Src { Src::rc(data.into()) }
    pub fn rc(data: Rc<[u8]>) -> Src {
        let fuel = data.len() * 2 + 10_000;
        Src { data, pos: 0, chunk: Chunk::Full, scribble: None, fault: None, fuel, st: Rc::default(), avail: None }
    }
    pub fn chunk(mut self, c: Chunk) -> Src { self.chunk = c; self }
    pub fn scribble(mut self, b: u8) -> Src { self.scribble = Some(b); self }
    pub fn fault(mut self, f: Option<Fault>) -> Src { self.fault = f; self }
    pub fn stat(&self) -> Rc<Stat> { self.st.clone() }
}
pub const MARK: &str = "injected fault #42";
pub fn fault_error(f: &Fault) -> io::Error { if f.os { io::Error::from_raw_os_error(5) } else { io::Error::new(f.kind, MARK) } }
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let i = self.st.reads.get();
        self.st.reads.set(i + 1);
        if self.fuel == 0 { panic!("source read again and again without end"); }
        self.fuel -= 1;
        if let Some(f) = self.fault {
            if i == f.at || f.persistent && i > f.at { self.st.faults.set(self.st.faults.get() + 1); self.st.at_fault.set(self.pos);
                if let Some(s) = self.scribble { for b in buf.iter_mut() { *b = s; } }
                return Err(fault_error(&f)); }
        }
        let left = self.data.len() - self.pos;
        let mut n = buf.len().min(left);
        match &self.chunk {
            Chunk::Full => {}
            Chunk::Uniform(c) => n = n.min(*c),
            Chunk::Cuts(v) => if let Some(&c) = v.iter().find(|&&c| c > self.pos) { n = n.min(c - self.pos) },
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        if let Some(s) = self.scribble { for b in &mut buf[n..] { *b = s; } }
        self.pos += n;
        if n == 0 && !buf.is_empty() { self.st.eofs.set(self.st.eofs.get() + 1); }
        self.st.delivered.set(self.pos);
        Ok(n)
    }
}

/// A `ReadBytes` that counts what is consumed; reads past the end fail.
pub struct SliceRb<'a> { pub b: &'a [u8], pub pos: usize, pub fuel: u64 }
impl<'a> SliceRb<'a> { pub fn new(b: &'a [u8]) -> SliceRb<'a> { SliceRb { b, pos: 0, fuel: b.len() as u64 * 2 + 100_000 } } fn tick(&mut self) { if self.fuel == 0 { panic!("input read again and again without end"); } self.fuel -= 1; } }
fn eof() -> io::Error { io::Error::new(ErrorKind::UnexpectedEof, "end of slice") }
impl<'a> claxon::input::ReadBytes for SliceRb<'a> {
    #[inline]
    fn read_u8(&mut self) -> io::Result<u8> { if self.pos < self.b.len() { self.pos += 1; Ok(self.b[self.pos - 1]) } else { self.tick(); Err(eof()) } }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { if self.pos < self.b.len() { self.pos += 1; Ok(Some(self.b[self.pos - 1])) } else { self.tick(); Ok(None) } }
    fn read_into(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if buf.len() <= self.b.len() - self.pos { buf.copy_from_slice(&self.b[self.pos..self.pos + buf.len()]); self.pos += buf.len(); Ok(()) } else { self.tick(); Err(eof()) }
    }
    fn skip(&mut self, n: u32) -> io::Result<()> { if n as usize <= self.b.len() - self.pos { self.pos += n as usize; Ok(()) } else { self.tick(); Err(eof()) } }
}

/// The size of the buffered reader's internal buffer, as observed from the source (2048 if that is not a handy size).
pub fn cap() -> usize {
    static C: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *C.get_or_init(|| {
        struct Probe(Rc<Cell<usize>>);
        impl Read for Probe { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.0.get() == 0 { self.0.set(b.len()); } Ok(0) } }
        let n = Rc::new(Cell::new(0));
        let m = n.clone();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { use claxon::input::ReadBytes; let _ = claxon::input::BufferedReader::new(Probe(m)).read_u8(); }));
        if (1024..=16384).contains(&n.get()) { n.get() } else { 2048 }
    })
}
