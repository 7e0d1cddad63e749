//! Environments controlled by the explorer: user-written readers and writers, and
//! std streams, whose every answer is a choice.
use crate::engine::Ch;
use il2_iltags::io::{ErrorKind, Reader, Result, Writer};
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom, Write};

/// Minimal user reader: implements only `read`, everything else by default.
pub struct ByteReader<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> ByteReader<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        ByteReader { b, p: 0 }
    }
}
impl<'a> Reader for ByteReader<'a> {
    fn read(&mut self) -> Result<u8> {
        if self.p < self.b.len() {
            self.p += 1;
            Ok(self.b[self.p - 1])
        } else {
            Err(ErrorKind::EndOfData)
        }
    }
}

/// Std reader delivering at most `step` bytes per call (0 = everything asked).
pub struct StepRead<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub step: usize,
    pub interrupt_every: usize,
    pub calls: usize,
}
impl<'a> Read for StepRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt_every > 0 && self.calls % self.interrupt_every == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.b.len() - self.p);
        if self.step > 0 {
            n = n.min(self.step);
        }
        buf[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}

/// Std reader whose answer at every call is chosen: all that is asked, fewer bytes,
/// or an interruption (all legal behaviours of `std::io::Read`).
pub struct ChRead<'a> {
    pub ch: &'a Ch,
    pub b: &'a [u8],
    pub p: usize,
    interrupts: usize,
}
impl<'a> ChRead<'a> {
    pub fn new(ch: &'a Ch, b: &'a [u8]) -> Self {
        ChRead { ch, b, p: 0, interrupts: 0 }
    }
}
impl<'a> Read for ChRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.b.len() - self.p);
        if n == 0 {
            return Ok(0);
        }
        // 0: everything; 1: interrupted; 2: one byte; 3: all but one; 4: half.
        let alts = if n >= 4 { 5 } else if n == 3 { 4 } else if n == 2 { 3 } else { 2 };
        let k = match self.ch.dev(alts) {
            0 => n,
            1 => {
                self.interrupts += 1;
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            2 => 1,
            3 => n - 1,
            _ => n / 2,
        };
        buf[..k].copy_from_slice(&self.b[self.p..self.p + k]);
        self.p += k;
        Ok(k)
    }
}

/// A seekable std stream over a byte vector, with positions beyond the end allowed
/// and injected short operations, interruptions and failures.
pub struct ChStream<'a> {
    pub ch: Option<&'a Ch>,
    pub data: Vec<u8>,
    pub pos: u64,
    /// Fail the n-th seek (counted from 0).
    pub fail_seek: Option<usize>,
    pub seeks: usize,
    pub seek_failed: bool,
}
impl<'a> ChStream<'a> {
    pub fn new(ch: Option<&'a Ch>, data: &[u8]) -> Self {
        ChStream { ch, data: data.to_vec(), pos: 0, fail_seek: None, seeks: 0, seek_failed: false }
    }
}
impl<'a> Read for ChStream<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let mut n = buf.len().min(left);
        if n == 0 {
            return Ok(0);
        }
        if let Some(ch) = self.ch {
            match ch.dev(if n > 1 { 3 } else { 2 }) {
                0 => {}
                1 => return Err(std::io::ErrorKind::Interrupted.into()),
                _ => n = 1,
            }
        }
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl<'a> Write for ChStream<'a> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut n = buf.len();
        if n == 0 {
            return Ok(0);
        }
        if let Some(ch) = self.ch {
            match ch.dev(if n > 1 { 3 } else { 2 }) {
                0 => {}
                1 => return Err(std::io::ErrorKind::Interrupted.into()),
                _ => n = 1,
            }
        }
        if self.pos > 1 << 20 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<'a> Seek for ChStream<'a> {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let k = self.seeks;
        self.seeks += 1;
        if self.fail_seek == Some(k) {
            self.seek_failed = true;
            return Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "injected seek failure"));
        }
        let r = match s {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if r < 0 || r > u64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = r as u64;
        Ok(self.pos)
    }
}

/// A stream that counts as seekable but cannot go back, like a pipe or a
/// decompressor.
pub struct Forward<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub step: usize,
}
impl<'a> Read for Forward<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = buf.len().min(self.b.len() - self.p);
        if self.step > 0 {
            n = n.min(self.step);
        }
        buf[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
impl<'a> Seek for Forward<'a> {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let at = match s {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.p as i128 + d as i128,
            SeekFrom::End(_) => -1,
        };
        if at < self.p as i128 || at > self.b.len() as i128 {
            return Err(std::io::ErrorKind::Unsupported.into());
        }
        self.p = at as usize;
        Ok(at as u64)
    }
}

/// The error a test environment raises, recognisable by its number.
#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for Injected {}

/// All kinds of failure a reader or writer may report.
pub const N_FAULTS: usize = 7;
pub fn fault(kind: usize, n: u64) -> ErrorKind {
    match kind {
        0 => ErrorKind::IOError(std::io::Error::new(std::io::ErrorKind::Other, Injected(n))),
        1 => ErrorKind::EndOfData,
        2 => ErrorKind::UnableToReadData,
        3 => ErrorKind::UnableToWriteData,
        4 => ErrorKind::BoxedError(Box::new(Injected(n))),
        5 => ErrorKind::IOError(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, Injected(n))),
        _ => ErrorKind::CorruptedData,
    }
}
/// Is `e` that very failure?
pub fn is_fault(e: &ErrorKind, kind: usize, n: u64) -> bool {
    let inner = |x: &(dyn std::error::Error + 'static)| x.downcast_ref::<Injected>().map(|i| i.0) == Some(n);
    match (kind, e) {
        (0, ErrorKind::IOError(x)) => x.kind() == std::io::ErrorKind::Other && x.get_ref().map(|r| inner(r)).unwrap_or(false),
        (1, ErrorKind::EndOfData) => true,
        (2, ErrorKind::UnableToReadData) => true,
        (3, ErrorKind::UnableToWriteData) => true,
        (4, ErrorKind::BoxedError(b)) => inner(b.as_ref()),
        (5, ErrorKind::IOError(x)) => x.kind() == std::io::ErrorKind::UnexpectedEof && x.get_ref().map(|r| inner(r)).unwrap_or(false),
        (6, ErrorKind::CorruptedData) => true,
        _ => false,
    }
}

/// User reader that fails at operation number `at`.
pub struct FaultReader<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub ops: usize,
    pub at: usize,
    pub kind: usize,
    pub failed: bool,
    pub after: usize,
    /// 0: only `read`; 1: also `read_all`; 2: also `skip`.
    pub style: usize,
}
impl<'a> FaultReader<'a> {
    pub fn new(b: &'a [u8], at: usize, kind: usize, style: usize) -> Self {
        FaultReader { b, p: 0, ops: 0, at, kind, failed: false, after: 0, style }
    }
    fn gate(&mut self, n: usize) -> Result<()> {
        if n == 0 {
            return Ok(());
        }
        if self.failed {
            self.after += 1;
        }
        let k = self.ops;
        self.ops += 1;
        if k == self.at {
            self.failed = true;
            return Err(fault(self.kind, k as u64));
        }
        if self.b.len() - self.p < n {
            return Err(ErrorKind::EndOfData);
        }
        Ok(())
    }
}
impl<'a> Reader for FaultReader<'a> {
    fn read(&mut self) -> Result<u8> {
        self.gate(1)?;
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        if self.style == 0 {
            return Plain(self).read_all(buff);
        }
        self.gate(buff.len())?;
        buff.copy_from_slice(&self.b[self.p..self.p + buff.len()]);
        self.p += buff.len();
        Ok(())
    }
    fn skip(&mut self, count: usize) -> Result<()> {
        match self.style {
            0 => return Plain(self).skip(count),
            1 => return Plain2(self).skip(count),
            _ => {}
        }
        self.gate(count)?;
        self.p += count;
        Ok(())
    }
}

/// User writer that records what it accepts and fails at operation `at`.
pub struct FaultWriter {
    pub out: Vec<u8>,
    pub ops: usize,
    pub at: usize,
    pub kind: usize,
    pub failed: bool,
    pub after: usize,
    /// Only `write` is implemented natively.
    pub bytewise: bool,
}
impl FaultWriter {
    pub fn new(at: usize, kind: usize, bytewise: bool) -> Self {
        FaultWriter { out: vec![], ops: 0, at, kind, failed: false, after: 0, bytewise }
    }
}
impl Writer for FaultWriter {
    fn write(&mut self, v: u8) -> Result<()> {
        if self.failed {
            self.after += 1;
        }
        let k = self.ops;
        self.ops += 1;
        if k == self.at {
            self.failed = true;
            return Err(fault(self.kind, k as u64));
        }
        self.out.push(v);
        Ok(())
    }
    fn write_all(&mut self, b: &[u8]) -> Result<()> {
        if self.bytewise {
            return PlainW(self).write_all(b);
        }
        if b.is_empty() {
            return Ok(());
        }
        if self.failed {
            self.after += 1;
        }
        let k = self.ops;
        self.ops += 1;
        if k == self.at {
            self.failed = true;
            return Err(fault(self.kind, k as u64));
        }
        self.out.extend_from_slice(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// A reader and a writer with only the required methods: the rest are the defaults
/// of the crate.
pub struct Plain<'a>(pub &'a mut dyn Reader);
impl<'a> Reader for Plain<'a> {
    fn read(&mut self) -> Result<u8> {
        self.0.read()
    }
}
/// Only `read` and `read_all`.
pub struct Plain2<'a>(pub &'a mut dyn Reader);
impl<'a> Reader for Plain2<'a> {
    fn read(&mut self) -> Result<u8> {
        self.0.read()
    }
    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.0.read_all(buff)
    }
}
pub struct PlainW<'a>(pub &'a mut dyn Writer);
impl<'a> Writer for PlainW<'a> {
    fn write(&mut self, v: u8) -> Result<()> {
        self.0.write(v)
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// A sized reader and a sized writer with every method passed on: the blanket
/// implementations of the crate apply to these.
pub struct Fwd<'a>(pub &'a mut dyn Reader);
impl<'a> Reader for Fwd<'a> {
    fn read(&mut self) -> Result<u8> {
        self.0.read()
    }
    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.0.read_all(buff)
    }
    fn skip(&mut self, n: usize) -> Result<()> {
        self.0.skip(n)
    }
    fn skip_u64(&mut self, n: u64) -> Result<()> {
        self.0.skip_u64(n)
    }
}
pub struct FwdW<'a>(pub &'a mut dyn Writer);
impl<'a> Writer for FwdW<'a> {
    fn write(&mut self, v: u8) -> Result<()> {
        self.0.write(v)
    }
    fn write_all(&mut self, b: &[u8]) -> Result<()> {
        self.0.write_all(b)
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Std writer whose answer at every call is chosen.
pub struct ChWrite<'a> {
    pub ch: &'a Ch,
    pub out: Vec<u8>,
}
impl<'a> Write for ChWrite<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len();
        if n == 0 {
            return Ok(0);
        }
        let alts = if n >= 4 { 5 } else if n == 3 { 4 } else if n == 2 { 3 } else { 2 };
        let k = match self.ch.dev(alts) {
            0 => n,
            1 => return Err(std::io::ErrorKind::Interrupted.into()),
            2 => 1,
            3 => n - 1,
            _ => n / 2,
        };
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Std writer failing at call `at` (or accepting nothing, `zero`), taking at most `step`.
pub struct FaultWrite {
    pub out: Vec<u8>,
    pub calls: usize,
    pub at: usize,
    pub zero: bool,
    pub kind: std::io::ErrorKind,
    pub step: usize,
    pub failed: bool,
    pub after: usize,
}
impl Write for FaultWrite {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after += 1;
        }
        let k = self.calls;
        self.calls += 1;
        if k == self.at {
            self.failed = true;
            return if self.zero { Ok(0) } else { Err(std::io::Error::new(self.kind, Injected(k as u64))) };
        }
        let n = if self.step > 0 { b.len().min(self.step) } else { b.len() };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Kinds of std I/O failure (an interruption is not one: it is retried).
pub const IO_KINDS: [std::io::ErrorKind; 8] = [
    std::io::ErrorKind::Other,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::WriteZero,
];
/// Std reader failing at call `at`, delivering at most `step` bytes a call.
pub struct FaultRead<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub calls: usize,
    pub at: usize,
    pub kind: std::io::ErrorKind,
    pub step: usize,
    pub failed: bool,
    pub after: usize,
}
impl<'a> FaultRead<'a> {
    pub fn new(b: &'a [u8], at: usize, kind: std::io::ErrorKind, step: usize) -> Self {
        FaultRead { b, p: 0, calls: 0, at, kind, step, failed: false, after: 0 }
    }
}
impl<'a> Read for FaultRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after += 1;
        }
        let k = self.calls;
        self.calls += 1;
        if k == self.at {
            self.failed = true;
            return Err(std::io::Error::new(self.kind, Injected(k as u64)));
        }
        let mut n = buf.len().min(self.b.len() - self.p);
        if self.step > 0 {
            n = n.min(self.step);
        }
        buf[..n].copy_from_slice(&self.b[self.p..self.p + n]);
        self.p += n;
        Ok(n)
    }
}
/// Is `e` the failure number `n` a std stream reported with this kind?
pub fn is_std_fault(e: &ErrorKind, kind: std::io::ErrorKind, n: u64) -> bool {
    match e {
        ErrorKind::IOError(x) => x.kind() == kind && x.get_ref().map(|r| r.downcast_ref::<Injected>().map(|i| i.0) == Some(n)).unwrap_or(false),
        _ => false,
    }
}

thread_local! {
    pub static NOTES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Every kind of reader the crate offers or a user may write.
pub const N_READERS: usize = 13;
pub fn reader_name(kind: usize) -> &'static str {
    ["ByteArrayReader", "VecReader", "user reader", "Cursor", "ReadReader<&[u8]>", "ReadReader 1 byte a time", "ReadReader 3 bytes, interrupted", "LimitedReader exact", "LimitedReader unbounded", "LimitedReader nested", "seekable stream", "BufReader<Cursor>", "seekable stream, short and often interrupted"][kind]
}
/// Runs `f` on a reader of the given kind over `b`; returns the bytes consumed too.
pub fn with_reader<X>(kind: usize, b: &[u8], f: impl FnOnce(&mut dyn Reader) -> X) -> (X, usize) {
    use il2_iltags::io::array::{ByteArrayReader, MemoryReader, VecReader};
    use il2_iltags::io::{LimitedReader, ReadReader};
    match kind {
        0 => {
            let mut r = ByteArrayReader::new(b);
            let x = f(&mut r);
            (x, r.offset())
        }
        1 => {
            let mut r = VecReader::new(b);
            let x = f(&mut r);
            (x, r.offset())
        }
        2 => {
            let mut r = ByteReader::new(b);
            let x = f(&mut r);
            (x, r.p)
        }
        3 => {
            let mut r = std::io::Cursor::new(b);
            let x = f(&mut r);
            (x, r.position() as usize)
        }
        4 => {
            let mut s = b;
            let x = f(&mut ReadReader::new(&mut s));
            (x, b.len() - s.len())
        }
        5 | 6 => {
            let mut s = StepRead { b, p: 0, step: if kind == 5 { 1 } else { 3 }, interrupt_every: if kind == 5 { 0 } else { 2 }, calls: 0 };
            let x = f(&mut ReadReader::new(&mut s));
            (x, s.p)
        }
        7 => {
            let mut r = ByteArrayReader::new(b);
            let x = f(&mut LimitedReader::new(&mut r, b.len()));
            (x, r.offset())
        }
        8 => {
            let mut r = ByteReader::new(b);
            let x = f(&mut LimitedReader::new(&mut r, usize::MAX));
            (x, r.p)
        }
        9 => {
            let mut r = VecReader::new(b);
            let x = {
                let mut l = LimitedReader::new(&mut r, b.len() + 1);
                f(&mut LimitedReader::new(&mut l, b.len()))
            };
            (x, r.offset())
        }
        10 => {
            let mut r = ChStream::new(None, b);
            let x = f(&mut r);
            (x, r.pos as usize)
        }
        12 => {
            let mut r = Stutter::new(b.to_vec());
            let x = f(&mut r);
            (x, r.c.position() as usize)
        }
        _ => {
            let mut r = std::io::BufReader::with_capacity(4, std::io::Cursor::new(b));
            let x = f(&mut r);
            (x, r.stream_position().expect("harness: cursor") as usize)
        }
    }
}

/// Every kind of writer with room for everything.
pub const N_WRITERS: usize = 11;
pub fn writer_name(kind: usize) -> &'static str {
    ["VecWriter", "BorrowedVecWriter", "ByteArrayWriter", "user writer", "Cursor", "WriteWriter<Vec>", "WriteWriter 1 byte a time", "WriteWriter interrupted", "seekable stream, short and often interrupted", "WriteWriter, short and often interrupted", "seekable stream 1 byte a time"][kind]
}
/// A seekable stream that takes and gives at most 7 bytes a call, interrupted over
/// and over before each call that does anything: 130 times before the first one, 11
/// times before each of the others (`steady`: 1 byte a call, never interrupted).
pub struct Stutter {
    pub c: std::io::Cursor<Vec<u8>>,
    pub steady: bool,
    owed: usize,
}
impl Stutter {
    pub fn new(b: Vec<u8>) -> Self {
        Stutter { c: std::io::Cursor::new(b), steady: false, owed: 130 }
    }
    fn interrupted(&mut self) -> std::io::Result<usize> {
        if self.steady {
            return Ok(1);
        }
        if self.owed > 0 {
            self.owed -= 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.owed = 11;
        Ok(7)
    }
}
impl Read for Stutter {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.interrupted()?);
        Read::read(&mut self.c, &mut b[..n])
    }
}
impl Write for Stutter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.interrupted()?);
        Write::write(&mut self.c, &b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Stutter {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(to)
    }
}
pub struct StepWrite {
    pub out: Vec<u8>,
    pub step: usize,
    pub interrupt_every: usize,
    pub calls: usize,
}
impl Write for StepWrite {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt_every > 0 && self.calls % self.interrupt_every == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.step);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Runs `f` on a writer of the given kind; returns what was written (`room` is the
/// size of the fixed buffer where there is one).
pub fn with_writer<X>(kind: usize, room: usize, f: impl FnOnce(&mut dyn Writer) -> X) -> (X, Vec<u8>) {
    use il2_iltags::io::array::{BorrowedVecWriter, ByteArrayWriter, VecWriter};
    use il2_iltags::io::WriteWriter;
    match kind {
        0 => {
            let mut w = VecWriter::new();
            let x = f(&mut w);
            (x, w.into())
        }
        1 => {
            let mut v = vec![];
            let x = f(&mut BorrowedVecWriter::new(&mut v));
            (x, v)
        }
        2 => {
            let mut v = vec![0; room];
            let (x, n) = {
                let mut w = ByteArrayWriter::new(&mut v);
                let x = f(&mut w);
                (x, w.get_offset())
            };
            v.truncate(n);
            (x, v)
        }
        3 => {
            let mut w = FaultWriter::new(usize::MAX, 0, true);
            let x = f(&mut PlainW(&mut w));
            (x, w.out)
        }
        4 => {
            let mut c = std::io::Cursor::new(vec![]);
            let x = f(&mut c);
            (x, c.into_inner())
        }
        5 => {
            let mut v = vec![];
            let x = f(&mut WriteWriter::new(&mut v));
            (x, v)
        }
        8 => {
            let mut s = Stutter::new(vec![]);
            let x = f(&mut s);
            (x, s.c.into_inner())
        }
        9 => {
            let mut s = Stutter::new(vec![]);
            let x = f(&mut WriteWriter::new(&mut s));
            (x, s.c.into_inner())
        }
        10 => {
            let mut s = Stutter { steady: true, ..Stutter::new(vec![]) };
            let x = f(&mut s);
            (x, s.c.into_inner())
        }
        _ => {
            let mut s = StepWrite { out: vec![], step: if kind == 6 { 1 } else { 3 }, interrupt_every: if kind == 6 { 0 } else { 2 }, calls: 0 };
            let x = f(&mut WriteWriter::new(&mut s));
            (x, s.out)
        }
    }
}
