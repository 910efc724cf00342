//! Readers and writers with scripted behaviour.

use std::io::{self, ErrorKind, Read, Write};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FaultKind {
    /// an error of this kind with a recognisable payload
    Err(ErrorKind),
    /// write returns Ok(0) / read reports end of file
    Zero,
}

#[derive(Debug)]
pub struct Payload(pub u64);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "payload {}", self.0) }
}
impl std::error::Error for Payload {}

pub const KINDS: [ErrorKind; 20] = [
    ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::WouldBlock,
    ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::WriteZero,
    ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::InvalidInput, ErrorKind::NotFound,
    ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::ConnectionRefused, ErrorKind::NotConnected,
    ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::AlreadyExists, ErrorKind::Other,
];

/// Accepts `ok` bytes, then fails for ever.
pub struct FailWriter {
    pub out: Vec<u8>,
    pub ok: usize,
    pub fault: FaultKind,
    pub tag: u64,
    pub calls_after: u64,
    /// bytes taken per call at most
    pub chunk: usize,
}

impl FailWriter {
    pub fn new(ok: usize, fault: FaultKind, tag: u64, chunk: usize) -> Self {
        FailWriter { out: Vec::new(), ok, fault, tag, calls_after: 0, chunk }
    }
}

impl Write for FailWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let room = self.ok - self.out.len();
        if room == 0 {
            self.calls_after += 1;
            return match self.fault {
                FaultKind::Err(k) => Err(io::Error::new(k, Payload(self.tag))),
                FaultKind::Zero => Ok(0),
            };
        }
        let n = b.len().min(room).min(self.chunk.max(1));
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Yields data, then the fault.
pub struct FailReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub fault: FaultKind,
    pub tag: u64,
    pub chunk: usize,
}

impl<'a> Read for FailReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.pos == self.data.len() {
            return match self.fault {
                FaultKind::Err(k) => Err(io::Error::new(k, Payload(self.tag))),
                FaultKind::Zero => Ok(0),
            };
        }
        let n = b.len().min(self.data.len() - self.pos).min(self.chunk.max(1));
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Transfers scripted amounts and is interrupted at scripted calls. Zero in the script stands
/// for an interruption.
pub struct Ragged {
    pub script: Vec<usize>,
    pub at: usize,
    pub interrupts: u64,
    pub calls: u64,
}

impl Ragged {
    pub fn new(script: Vec<usize>) -> Self { Ragged { script, at: 0, interrupts: 0, calls: 0 } }
    fn next(&mut self) -> io::Result<usize> {
        self.calls += 1;
        let n = self.script[self.at % self.script.len()];
        self.at += 1;
        if n == 0 {
            self.interrupts += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        Ok(n)
    }
}

pub struct RaggedWriter { pub r: Ragged, pub out: Vec<u8> }
impl Write for RaggedWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = self.r.next()?.min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub struct RaggedReader<'a> { pub r: Ragged, pub data: &'a [u8], pub pos: usize }
impl<'a> Read for RaggedReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = self.r.next()?.min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
