//! C21: stream adapters are faithful to the wrapped stream.
use crate::engine::*;
use crate::env::*;
use crate::sup::Prop;
use il2_iltags::io::std_io::SizedSeek;
use il2_iltags::io::{ErrorKind, ReadReader, Reader, WriteWriter, Writer};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
enum Op {
    Read,
    All(usize),
    Skip(usize),
    Skip64(u64),
    Len,
    Empty,
    Offset,
    Avail,
    Go(u64),
    Put,
    PutAll(usize),
}

/// A stream the adapters apply to, and what it holds.
trait Stream {
    fn reader(&mut self) -> &mut dyn Reader;
    fn writer(&mut self) -> Option<&mut dyn Writer>;
    fn size(&mut self, op: Op) -> std::result::Result<u64, ErrorKind>;
    fn content(&self) -> Vec<u8>;
    fn pos(&mut self) -> u64;
    fn go(&mut self, p: u64) -> bool;
    /// Bytes it can hold at most.
    fn room(&self) -> Option<usize>;
    /// Did one of its own operations fail (not merely reach the end) just now?
    fn own_failure(&mut self) -> bool {
        false
    }
}
fn size_of<S: SizedSeek>(s: &mut S, op: Op) -> std::result::Result<u64, ErrorKind> {
    match op {
        Op::Len => s.len(),
        Op::Empty => s.is_empty().map(|x| x as u64),
        Op::Offset => s.offset(),
        _ => s.available(),
    }
}
impl Stream for Cursor<Vec<u8>> {
    fn reader(&mut self) -> &mut dyn Reader {
        self
    }
    fn writer(&mut self) -> Option<&mut dyn Writer> {
        Some(self)
    }
    fn size(&mut self, op: Op) -> std::result::Result<u64, ErrorKind> {
        size_of(self, op)
    }
    fn content(&self) -> Vec<u8> {
        self.get_ref().clone()
    }
    fn pos(&mut self) -> u64 {
        self.position()
    }
    fn go(&mut self, p: u64) -> bool {
        self.set_position(p);
        true
    }
    fn room(&self) -> Option<usize> {
        None
    }
}
impl<'a> Stream for Cursor<&'a mut [u8]> {
    fn reader(&mut self) -> &mut dyn Reader {
        self
    }
    fn writer(&mut self) -> Option<&mut dyn Writer> {
        Some(self)
    }
    fn size(&mut self, op: Op) -> std::result::Result<u64, ErrorKind> {
        size_of(self, op)
    }
    fn content(&self) -> Vec<u8> {
        self.get_ref().to_vec()
    }
    fn pos(&mut self) -> u64 {
        self.position()
    }
    fn go(&mut self, p: u64) -> bool {
        self.set_position(p);
        true
    }
    fn room(&self) -> Option<usize> {
        Some(self.get_ref().len())
    }
}
impl<'a> Stream for Cursor<&'a [u8]> {
    fn reader(&mut self) -> &mut dyn Reader {
        self
    }
    fn writer(&mut self) -> Option<&mut dyn Writer> {
        None
    }
    fn size(&mut self, op: Op) -> std::result::Result<u64, ErrorKind> {
        size_of(self, op)
    }
    fn content(&self) -> Vec<u8> {
        self.get_ref().to_vec()
    }
    fn pos(&mut self) -> u64 {
        self.position()
    }
    fn go(&mut self, p: u64) -> bool {
        self.set_position(p);
        true
    }
    fn room(&self) -> Option<usize> {
        None
    }
}
impl<'a> Stream for std::io::BufReader<Cursor<&'a [u8]>> {
    fn reader(&mut self) -> &mut dyn Reader {
        self
    }
    fn writer(&mut self) -> Option<&mut dyn Writer> {
        None
    }
    fn size(&mut self, op: Op) -> std::result::Result<u64, ErrorKind> {
        size_of(self, op)
    }
    fn content(&self) -> Vec<u8> {
        self.get_ref().get_ref().to_vec()
    }
    fn pos(&mut self) -> u64 {
        self.stream_position().expect("harness: position")
    }
    fn go(&mut self, p: u64) -> bool {
        self.seek(SeekFrom::Start(p)).is_ok()
    }
    fn room(&self) -> Option<usize> {
        None
    }
}
impl<'a> Stream for ChStream<'a> {
    fn reader(&mut self) -> &mut dyn Reader {
        self
    }
    fn writer(&mut self) -> Option<&mut dyn Writer> {
        Some(self)
    }
    fn size(&mut self, op: Op) -> std::result::Result<u64, ErrorKind> {
        size_of(self, op)
    }
    fn content(&self) -> Vec<u8> {
        self.data.clone()
    }
    fn pos(&mut self) -> u64 {
        self.pos
    }
    fn go(&mut self, p: u64) -> bool {
        self.pos = p;
        true
    }
    fn room(&self) -> Option<usize> {
        None
    }
    fn own_failure(&mut self) -> bool {
        std::mem::take(&mut self.seek_failed)
    }
}

fn drive(ch: &Ch, s: &mut dyn Stream, ops: &[Op], steps: usize, what: &str) -> R {
    let mut b = s.content();
    let mut p = s.pos();
    let room = s.room();
    let mut hist: Vec<Op> = vec![];
    let mut next = 1u8;
    for _ in 0..steps {
        let op = *ch.pick(ops);
        hist.push(op);
        let l = b.len() as u64;
        let left = l.saturating_sub(p);
        let at = p;
        let mut unsure = false;
        let fail = |m: String| -> R { Err(format!("{} with {:?} after {:?}, at {} of {}: {}", what, op, hist, at, l, m)) };
        match op {
            Op::Read | Op::All(_) => {
                let n = if let Op::All(n) = op { n } else { 1 };
                let mut buf = vec![0xEE; n];
                let ok = match op {
                    Op::Read => match s.reader().read() {
                        Ok(x) => {
                            buf[0] = x;
                            true
                        }
                        Err(_) => false,
                    },
                    _ => s.reader().read_all(&mut buf).is_ok(),
                };
                let own = s.own_failure();
                if ok {
                    if n as u64 > left {
                        return fail(format!("{} bytes read", n));
                    }
                    if n > 0 && buf != b[p as usize..p as usize + n] {
                        return fail(format!("read {:?}", buf));
                    }
                    p += n as u64;
                } else {
                    if n as u64 <= left && !own {
                        return fail("the read fails".into());
                    }
                    // What was there may have been consumed: a std read that
                    // reaches the end leaves the position open.
                    unsure = true;
                }
            }
            Op::Skip(_) | Op::Skip64(_) => {
                let n = match op {
                    Op::Skip(n) => n as u64,
                    Op::Skip64(n) => n,
                    _ => 0,
                };
                let r = match op {
                    Op::Skip(n) => s.reader().skip(n),
                    _ => s.reader().skip_u64(n),
                };
                let own = s.own_failure();
                match r {
                    Ok(()) => {
                        if n > 0 && n > left {
                            return fail("the skip succeeds".into());
                        }
                        if own {
                            return fail("the skip succeeds although a seek failed".into());
                        }
                        p += n;
                    }
                    Err(e) => {
                        if (n == 0 || n <= left) && !own {
                            return fail(format!("the skip fails: {:?}", e));
                        }
                        unsure = own;
                    }
                }
            }
            Op::Len | Op::Empty | Op::Offset | Op::Avail => {
                let want = match op {
                    Op::Len => l,
                    Op::Empty => (l == 0) as u64,
                    Op::Offset => p,
                    _ => left,
                };
                let r = s.size(op);
                let own = s.own_failure();
                match r {
                    Ok(_) if own => return fail("succeeds although a seek failed".into()),
                    Ok(x) => {
                        if x != want {
                            return fail(format!("gives {}, expected {}", x, want));
                        }
                    }
                    Err(e) => {
                        if !own {
                            return fail(format!("fails: {:?}", e));
                        }
                        unsure = true;
                    }
                }
            }
            Op::Go(x) => {
                if s.go(x) {
                    p = x;
                }
            }
            Op::Put | Op::PutAll(_) => {
                let n = if let Op::PutAll(n) = op { n } else { 1 };
                // A gap of zeros is only made where it is small.
                if p > 64 || s.writer().is_none() {
                    continue;
                }
                let x: Vec<u8> = (0..n).map(|i| next + i as u8).collect();
                next = next.wrapping_add(n as u8) % 100;
                let ok = match op {
                    Op::Put => s.writer().map(|w| w.write(x[0]).is_ok()),
                    _ => s.writer().map(|w| w.write_all(&x).is_ok()),
                }
                .unwrap_or(false);
                let own = s.own_failure();
                let fits = match room {
                    None => true,
                    Some(r) => n == 0 || n as u64 <= (r as u64).saturating_sub(p),
                };
                if ok != fits && !own {
                    return fail(format!("the write succeeds: {}", ok));
                }
                let took = if fits { n } else { room.unwrap_or(0).saturating_sub(p as usize).min(n) };
                if took > 0 {
                    let e = p as usize + took;
                    if b.len() < e {
                        b.resize(e, 0);
                    }
                    b[p as usize..e].copy_from_slice(&x[..took]);
                    p += took as u64;
                }
                if n == 0 && p > l {
                    // Some std streams fill the gap even for an empty write.
                    let c = s.content();
                    if c.len() as u64 == p && c[..b.len()] == b[..] && c[b.len()..].iter().all(|x| *x == 0) {
                        b = c;
                    }
                }
                if !fits {
                    // The std stream takes what it can: position and content as it
                    // left them, within what was asked.
                    unsure = true;
                }
            }
        }
        let now = s.pos();
        if unsure {
            let hi = at.max(l).max(p);
            if !(now >= at.min(l) && now <= hi) {
                return fail(format!("left at {}", now));
            }
            p = now;
        }
        if now != p {
            return fail(format!("left at {}, expected {}", now, p));
        }
        if s.content() != b {
            return fail(format!("left holding {:?}, expected {:?}", s.content(), b));
        }
        ch.seen(p ^ (b.len() as u64) << 8);
        ch.op();
    }
    ch.sample(|| format!("{}: {:?} ends at {} of {}", what, hist, p, b.len()));
    Ok(())
}

fn all_ops(max: usize, write: bool) -> Vec<Op> {
    let mut v = vec![Op::Read, Op::Len, Op::Empty, Op::Offset, Op::Avail];
    for n in 0..=max + 1 {
        v.push(Op::All(n));
    }
    for n in [0u64, 1, 2, 3, max as u64, max as u64 + 1, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, u64::MAX - 2, u64::MAX - 1, u64::MAX] {
        v.push(Op::Skip64(n));
    }
    for n in [0usize, 1, 3, i64::MAX as usize + 1, usize::MAX] {
        v.push(Op::Skip(n));
    }
    for n in [0u64, 1, 2, max as u64, max as u64 + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX] {
        v.push(Op::Go(n));
    }
    if write {
        v.push(Op::Put);
        v.push(Op::PutAll(0));
        v.push(Op::PutAll(2));
        v.push(Op::PutAll(5));
    }
    v
}

/// A stream too long to exist: its bytes are a function of their position.
struct Virt {
    len: u64,
    pos: u64,
}
fn vbyte(p: u64) -> u8 {
    (p ^ p >> 8 ^ p >> 29 ^ p >> 37) as u8
}
impl Read for Virt {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(b.len() as u64) as usize;
        for x in &mut b[..n] {
            *x = vbyte(self.pos);
            self.pos += 1;
        }
        Ok(n)
    }
}
impl Seek for Virt {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        self.pos = p.ok_or(std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}
/// Every operation against a length and a position.
fn drive_huge<S: Read + Seek>(ch: &Ch, s: &mut S, len: u64, ops: &[Op], steps: usize) -> R {
    let mut p = 0u64;
    let mut hist: Vec<Op> = vec![];
    for _ in 0..steps {
        let op = *ch.pick(ops);
        hist.push(op);
        let left = len.saturating_sub(p);
        let fail = |m: String| -> R { Err(format!("stream of {} bytes, {:?}: at {}, {}", len, hist, p, m)) };
        let mut after = p;
        match op {
            Op::All(n) => {
                let mut b = vec![0; n];
                let ok = Reader::read_all(s, &mut b).is_ok();
                if ok != (n as u64 <= left) {
                    return fail(format!("read succeeds: {}", ok));
                }
                if ok {
                    if (0..n).any(|i| b[i] != vbyte(p + i as u64)) {
                        return fail(format!("read {:?}", b));
                    }
                    after += n as u64;
                } else {
                    // A failed read may have taken what was there.
                    s.seek(SeekFrom::Start(p)).map_err(|e| format!("harness: {:?}", e))?;
                }
            }
            Op::Skip(_) | Op::Skip64(_) => {
                let (n, r) = match op {
                    Op::Skip(n) => (n as u64, Reader::skip(s, n)),
                    Op::Skip64(n) => (n, Reader::skip_u64(s, n)),
                    _ => (0, Ok(())),
                };
                if r.is_ok() != (n <= left) {
                    return fail(format!("skip gives {:?}", r));
                }
                if r.is_ok() {
                    after += n;
                }
            }
            Op::Go(x) => {
                s.seek(SeekFrom::Start(x)).map_err(|e| format!("harness: {:?}", e))?;
                after = x;
            }
            _ => {
                let want = match op {
                    Op::Len => len,
                    Op::Empty => (len == 0) as u64,
                    Op::Offset => p,
                    _ => left,
                };
                match size_of(s, op) {
                    Ok(x) if x == want => {}
                    r => return fail(format!("{:?} instead of {}", r, want)),
                }
            }
        }
        let now = s.stream_position().map_err(|e| format!("harness: {:?}", e))?;
        if now != after {
            return fail(format!("left at {}, expected {}", now, after));
        }
        p = after;
        ch.op();
        ch.seen(p);
    }
    ch.sample(|| format!("{} bytes: {:?} ends at {}", len, hist, p));
    Ok(())
}

/// A stream that cannot seek, seen from outside while an adapter holds it.
struct KeptRead<'a> {
    ch: &'a Ch,
    b: &'a [u8],
    p: &'a std::cell::Cell<usize>,
    /// Did it fail, or report its end before it was reached?
    bad: &'a std::cell::Cell<bool>,
}
impl<'a> Read for KeptRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.b.len() - self.p.get());
        if n == 0 {
            return Ok(0);
        }
        let k = match self.ch.dev(if n > 1 { 5 } else { 4 }) {
            0 => n,
            1 => return Err(std::io::ErrorKind::Interrupted.into()),
            2 => {
                self.bad.set(true);
                return Err(std::io::ErrorKind::ConnectionReset.into());
            }
            3 => {
                self.bad.set(true);
                return Ok(0);
            }
            _ => 1,
        };
        let p = self.p.get();
        buf[..k].copy_from_slice(&self.b[p..p + k]);
        self.p.set(p + k);
        Ok(k)
    }
}
struct StepRead<'a> {
    b: &'a [u8],
    p: &'a std::cell::Cell<usize>,
    step: usize,
}
impl<'a> Read for StepRead<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let p = self.p.get();
        let n = buf.len().min(self.b.len() - p).min(self.step);
        buf[..n].copy_from_slice(&self.b[p..p + n]);
        self.p.set(p + n);
        Ok(n)
    }
}
struct StepWrite<'a> {
    out: &'a mut Vec<u8>,
    step: usize,
}
impl<'a> Write for StepWrite<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Forward streams: no position of their own, only what was taken or given.
#[derive(Clone, Copy, Debug)]
enum F {
    Read,
    All(usize),
    Skip(usize),
    Skip64(u64),
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    spaces.push(super::huge::cursors(tier, 2));
    {
        let n = if th { 5 } else { 4 };
        let o = Arc::new(all_ops(4, true));
        let ro = Arc::new(all_ops(4, false));
        spaces.push(space("seekable", format!("every sequence of {} of {} operations (counts and positions up to 2^64-1) on 5 kinds of seekable streams of 0 to 4 bytes", n, o.len()), move |ch| {
            let len = ch.choose(5);
            let b: Vec<u8> = (0..len).map(|i| 0xA0 + i as u8).collect();
            // One operation less for all but one kind: they share the adapter.
            match ch.choose(5) {
                0 => drive(ch, &mut Cursor::new(b), &o, n, "cursor over a vector"),
                1 => drive(ch, &mut Cursor::new(&mut b.clone()[..]), &o, n - 1, "cursor over a fixed buffer"),
                2 => drive(ch, &mut Cursor::new(&b[..]), &ro, n - 1, "cursor over a slice"),
                3 => drive(ch, &mut std::io::BufReader::with_capacity(2, Cursor::new(&b[..])), &ro, n - 1, "buffered cursor"),
                _ => drive(ch, &mut ChStream::new(None, &b), &o, n - 1, "stream"),
            }
        }));
    }
    {
        let n = if th { 4 } else { 3 };
        let lens = [1u64, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 3 << 32, (1 << 53) + 1, 1 << 62, i64::MAX as u64];
        spaces.push(space("huge", format!("every sequence of {} operations (counts and positions around every power of two that matters and around the end) on streams of {} lengths up to 2^63-1, direct and buffered", n, lens.len()), move |ch| {
            let len = *ch.pick(&lens);
            let mut c = vec![0u64, 1, 3, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, len - 1, len, len + 1, len / 2, i64::MAX as u64, 1 << 63, u64::MAX];
            c.sort_unstable();
            c.dedup();
            let mut o = vec![Op::All(1), Op::All(3), Op::Len, Op::Empty, Op::Offset, Op::Avail];
            for x in &c {
                o.push(Op::Skip64(*x));
                o.push(Op::Go(*x));
            }
            o.extend([Op::Skip(2), Op::Skip((1 << 32) + 2), Op::Skip(usize::MAX)]);
            if ch.flag() {
                drive_huge(ch, &mut std::io::BufReader::with_capacity(4, Virt { len, pos: 0 }), len, &o, n - 1)
            } else {
                drive_huge(ch, &mut Virt { len, pos: 0 }, len, &o, n)
            }
        }));
    }
    {
        let n = if th { 4 } else { 3 };
        let o = Arc::new(all_ops(4, true));
        let d = 2;
        spaces.push(
            space("seekable_short", format!("every sequence of {} of {} operations on a seekable stream of 4 bytes, with every placement of {} short or interrupted operations", n, o.len(), d), move |ch| {
                drive(ch, &mut ChStream::new(Some(ch), &[9, 8, 7, 6]), &o, n, "stream with short operations")
            })
            .devs(d),
        );
    }
    {
        let n = if th { 4 } else { 3 };
        let o = Arc::new(all_ops(3, true));
        spaces.push(space("seek_faults", format!("every sequence of {} of {} operations on a seekable stream of 0 and 3 bytes whose n-th seek fails, for n up to {}", n, o.len(), 4 * n), move |ch| {
            let b: &[u8] = if ch.flag() { &[1, 2, 3] } else { &[] };
            let mut s = ChStream::new(None, b);
            s.fail_seek = Some(ch.choose(4 * n));
            s.pos = ch.choose(5) as u64;
            drive(ch, &mut s, &o, n, "stream with a failing seek")
        }));
    }
    {
        let n = if th { 5 } else { 4 };
        let mut o = vec![F::Read];
        for k in 0..=6 {
            o.push(F::All(k));
        }
        for k in [0usize, 1, 3, 5, 6] {
            o.push(F::Skip(k));
        }
        for k in [1u64, 2, 5, 1 << 40, u64::MAX] {
            o.push(F::Skip64(k));
        }
        spaces.push(
            space("forward", format!("every sequence of {} of {} operations on streams of 0 to 5 bytes that cannot seek, with every placement of 2 short or interrupted reads", n, o.len()), move |ch| {
                let len = ch.choose(6);
                let b: Vec<u8> = (0..len).map(|i| 0xB0 + i as u8).collect();
                let mut s = ChRead::new(ch, &b);
                let mut p = 0usize;
                let mut hist = vec![];
                for _ in 0..n {
                    let op = *ch.pick(&o);
                    hist.push(op);
                    let k = match op {
                        F::Read => 1u64,
                        F::All(k) | F::Skip(k) => k as u64,
                        F::Skip64(k) => k,
                    };
                    let mut buf = vec![0; if let F::All(k) = op { k } else { 1 }];
                    let r = {
                        let mut r = ReadReader::new(&mut s);
                        match op {
                            F::Read => r.read().map(|x| buf[0] = x),
                            F::All(_) => r.read_all(&mut buf),
                            F::Skip(k) => r.skip(k),
                            F::Skip64(k) => r.skip_u64(k),
                        }
                    };
                    let fits = k <= (len - p) as u64;
                    ensure!(r.is_ok() == fits, "{:?} on {} bytes at {}: {:?}", hist, len, p, r);
                    if !fits {
                        // A stream that cannot seek may have been consumed.
                        ensure!(s.p >= p && s.p <= len, "{:?} on {} bytes: left at {}", hist, len, s.p);
                        p = s.p;
                        if let Err(e) = &r {
                            ensure!(matches!(e, ErrorKind::IOError(x) if x.kind() == std::io::ErrorKind::UnexpectedEof) || matches!(e, ErrorKind::EndOfData | ErrorKind::UnableToReadData), "{:?} on {} bytes: the end is reported as {:?}", hist, len, e);
                        }
                    } else {
                        if matches!(op, F::Read | F::All(_)) {
                            ensure!(buf[..k as usize] == b[p..p + k as usize], "{:?} on {} bytes at {}: read {:?}", hist, len, p, buf);
                        }
                        p += k as usize;
                        ensure!(s.p == p, "{:?} on {} bytes: left at {}, expected {}", hist, len, s.p, p);
                    }
                    ch.op();
                }
                ch.seen(p as u64);
                Ok(())
            })
            .devs(2),
        );
    }
    {
        // One adapter kept over the whole history, on a stream whose operations may be
        // short, interrupted or fail, and which may pause (report its end and go on).
        let n = if th { 5 } else { 4 };
        let o = [F::Read, F::All(0), F::All(1), F::All(2), F::All(3), F::Skip(1), F::Skip(3), F::Skip64(2), F::Skip64(1 << 40)];
        spaces.push(
            space("kept", format!("every sequence of {} of {} operations on one adapter kept over a stream of 0 to 6 bytes that cannot seek, with every placement of 2 short, interrupted, failing or empty reads", n, o.len()), move |ch| {
                let len = *ch.pick(&[0usize, 1, 3, 6]);
                let b: Vec<u8> = (0..len).map(|i| 0xB0 + i as u8).collect();
                let (p, bad) = (std::cell::Cell::new(0usize), std::cell::Cell::new(false));
                let mut s = KeptRead { ch, b: &b, p: &p, bad: &bad };
                let mut r = ReadReader::new(&mut s);
                let mut hist = vec![];
                for _ in 0..n {
                    let op = *ch.pick(&o);
                    hist.push(op);
                    let k = match op {
                        F::Read => 1u64,
                        F::All(k) | F::Skip(k) => k as u64,
                        F::Skip64(k) => k,
                    };
                    let at = p.get();
                    bad.set(false);
                    let mut buf = vec![0; if let F::All(k) = op { k } else { 1 }];
                    let x = match op {
                        F::Read => r.read().map(|x| buf[0] = x),
                        F::All(_) => r.read_all(&mut buf),
                        F::Skip(k) => r.skip(k),
                        F::Skip64(k) => r.skip_u64(k),
                    };
                    let fits = k <= (len - at) as u64 && !bad.get();
                    ensure!(x.is_ok() == fits, "{:?} on {} bytes at {} (failing: {}): {:?}", hist, len, at, bad.get(), x);
                    if fits {
                        if matches!(op, F::Read | F::All(_)) {
                            ensure!(buf[..k as usize] == b[at..at + k as usize], "{:?} on {} bytes at {}: read {:?}", hist, len, at, buf);
                        }
                        ensure!(p.get() == at + k as usize, "{:?} on {} bytes: left at {}, expected {}", hist, len, p.get(), at + k as usize);
                    }
                    ch.op();
                }
                ch.seen(p.get() as u64);
                Ok(())
            })
            .devs(2),
        );
        let k = if th { 4 } else { 3 };
        let o = [F::Read, F::All(0), F::All(2), F::All(700), F::Skip(1), F::Skip(600), F::Skip64(3), F::Skip64(1 << 40)];
        spaces.push(space("repeated", format!("every pattern of 1 to {} of {} operations repeated 70000 times on one adapter over a stream of 150000 bytes giving all, 1 or 300 bytes a call; as many writes", k, o.len()), move |ch| {
            let step = *ch.pick(&[usize::MAX, 1, 300]);
            let n = ch.range(1, k);
            let pat: Vec<F> = (0..n).map(|_| *ch.pick(&o)).collect();
            let b = crate::alpha::fill(150_000, 8);
            let p = std::cell::Cell::new(0usize);
            let mut s = StepRead { b: &b, p: &p, step };
            let mut r = ReadReader::new(&mut s);
            let mut out = vec![];
            let mut written = 0u64;
            let mut sw = StepWrite { out: &mut out, step };
            let mut w = WriteWriter::new(&mut sw);
            let mut buf = vec![0u8; 700];
            for i in 0..70_000usize {
                for op in &pat {
                    let at = p.get();
                    let (k, ok) = match *op {
                        F::Read => (1u64, r.read().map(|x| buf[0] = x).is_ok()),
                        F::All(k) => (k as u64, r.read_all(&mut buf[..k]).is_ok()),
                        F::Skip(k) => (k as u64, r.skip(k).is_ok()),
                        F::Skip64(k) => (k, r.skip_u64(k).is_ok()),
                    };
                    let fits = k <= (b.len() - at) as u64;
                    ensure!(ok == fits, "round {} of {:?} at {}: {}", i, pat, at, ok);
                    if fits {
                        ensure!(p.get() == at + k as usize, "round {} of {:?}: left at {}, expected {}", i, pat, p.get(), at + k as usize);
                        if matches!(op, F::Read | F::All(_)) {
                            let x = &b[at..at + k as usize];
                            ensure!(buf[..k as usize] == *x, "round {} of {:?} at {}: other bytes", i, pat, at);
                        }
                    }
                    // The written side: as many operations, few bytes.
                    let x = &b[i % 1000..i % 1000 + (k % 3) as usize];
                    let ok = if k == 1 { w.write(x[0]).is_ok() } else { w.write_all(x).is_ok() };
                    ensure!(ok, "round {} of {:?}: the write fails", i, pat);
                    written += x.len() as u64;
                }
            }
            ensure_eq!(out.len() as u64, written, "bytes written over {:?}", pat);
            let mut at = 0;
            for i in 0..70_000usize {
                for op in &pat {
                    let k = match *op {
                        F::Read => 1u64,
                        F::All(k) | F::Skip(k) => k as u64,
                        F::Skip64(k) => k,
                    };
                    let x = &b[i % 1000..i % 1000 + (k % 3) as usize];
                    ensure!(&out[at..at + x.len()] == x, "bytes written in round {} of {:?}", i, pat);
                    at += x.len();
                }
            }
            ch.ops(140_000 * pat.len() as u64);
            ch.seen(pat.len() as u64);
            Ok(())
        }));
    }
    {
        let n = if th { 6 } else { 5 };
        spaces.push(
            space("forward_write", format!("every sequence of {} writes of 0 to 5 bytes on streams, with every placement of 3 short or interrupted writes", n), move |ch| {
                let mut s = ChWrite { ch, out: vec![] };
                let mut want: Vec<u8> = vec![];
                for i in 0..n {
                    let k = ch.choose(7);
                    let x: Vec<u8> = (0..k.min(5)).map(|j| (10 * i + j) as u8).collect();
                    let r = {
                        let mut w = WriteWriter::new(&mut s);
                        if k == 6 {
                            w.as_writer().write(200).map(|_| want.push(200))
                        } else {
                            w.write_all(&x).map(|_| want.extend(&x))
                        }
                    };
                    ensure!(r.is_ok(), "write of {} bytes: {:?}", k, r);
                    ensure!(s.out == want, "the stream holds {:?}, expected {:?}", s.out, want);
                    ch.op();
                }
                Ok(())
            })
            .devs(3),
        );
    }
    {
        // Failures of the streams: always an error, carrying theirs.
        spaces.push(space("faults", format!("reads and writes of 1 to 5 bytes on streams giving 1, 2 or all bytes a call, failing at each call with {} kinds of error, or taking nothing", IO_KINDS.len()), |ch| {
            let n = ch.range(1, 5);
            let step = ch.choose(3);
            let at = ch.choose(5);
            for kind in IO_KINDS {
                let b = [1u8, 2, 3, 4, 5];
                let mut s = FaultRead::new(&b, at, kind, step);
                let mut buf = vec![0; n];
                let r = ReadReader::new(&mut s).read_all(&mut buf);
                match r {
                    Ok(()) => ensure!(!s.failed && buf == b[..n], "read succeeds although the stream failed"),
                    Err(e) => ensure!(s.failed && is_std_fault(&e, kind, at as u64), "stream error {:?} comes back as {:?}", kind, e),
                }
                let mut s = FaultRead::new(&b, at, kind, step);
                let mut ok = 0;
                {
                    let mut r = ReadReader::new(&mut s);
                    for _ in 0..n {
                        match r.read() {
                            Ok(_) => ok += 1,
                            Err(e) => {
                                ensure!(is_std_fault(&e, kind, at as u64), "stream error {:?} comes back as {:?}", kind, e);
                                break;
                            }
                        }
                    }
                }
                ensure!(ok == n.min(at), "{} single reads succeed, the stream fails at call {}", ok, at);
                let mut s = FaultRead::new(&b, at, kind, step);
                match ReadReader::new(&mut s).skip(n) {
                    Ok(()) => ensure!(!s.failed, "skip succeeds although the stream failed"),
                    Err(e) => ensure!(s.failed && is_std_fault(&e, kind, at as u64), "stream error {:?} comes back as {:?}", kind, e),
                }
                for zero in [false, true] {
                    let mut s = FaultWrite { out: vec![], calls: 0, at, zero, kind, step, failed: false, after: 0 };
                    let r = WriteWriter::new(&mut s).write_all(&b[..n]);
                    match r {
                        Ok(()) => ensure!(!s.failed && s.out == b[..n], "write succeeds although the stream failed ({:?})", kind),
                        Err(e) => {
                            ensure!(s.failed, "write fails although the stream did not: {:?}", e);
                            if !zero && kind != std::io::ErrorKind::WriteZero {
                                ensure!(is_std_fault(&e, kind, at as u64), "stream error {:?} comes back as {:?}", kind, e);
                            }
                        }
                    }
                    ensure!(s.after == 0 && s.out[..] == b[..s.out.len()], "the stream holds {:?} after its failure", s.out);
                }
                ch.ops(5);
            }
            Ok(())
        }));
    }
    {
        // The conversion of std errors.
        use std::io::ErrorKind::*;
        let all = [
            NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
        ];
        spaces.push(space("conversion", format!("{} kinds of std error, simple, with a payload and from the system", all.len()), move |ch| {
            let kind = *ch.pick(&all);
            let from = ch.choose(3);
            let e: std::io::Error = match from {
                0 => kind.into(),
                1 => std::io::Error::new(kind, Injected(41)),
                _ => std::io::Error::new(kind, "text"),
            };
            let x: ErrorKind = e.into();
            if kind == UnexpectedEof {
                ensure!(matches!(x, ErrorKind::EndOfData), "the end of data is converted to {:?}", x);
                return Ok(());
            }
            let inner = match &x {
                ErrorKind::IOError(y) => Some(y),
                ErrorKind::BoxedError(y) => y.downcast_ref::<std::io::Error>(),
                _ => None,
            };
            match inner {
                Some(y) => {
                    ensure!(y.kind() == kind, "{:?} is converted to {:?}", kind, y.kind());
                    if from == 1 {
                        ensure!(y.get_ref().map(|z| z.is::<Injected>()).unwrap_or(false), "{:?} loses its payload", kind);
                    }
                }
                None => return Err(format!("{:?} is converted to {:?}", kind, x)),
            }
            for code in 1..134 {
                let e = std::io::Error::from_raw_os_error(code);
                let k = e.kind();
                let x: ErrorKind = e.into();
                let inner = match &x {
                    ErrorKind::IOError(y) => Some(y),
                    ErrorKind::BoxedError(y) => y.downcast_ref::<std::io::Error>(),
                    _ => None,
                };
                ensure!(k == UnexpectedEof || inner.map(|y| y.raw_os_error()) == Some(Some(code)), "system error {} is converted to {:?}", code, x);
                ch.op();
            }
            Ok(())
        }));
    }
    {
        // A real file of the system.
        spaces.push(
            space("file", "every sequence of 2 operations at every position of files of 0, 3 and 5000 bytes", |ch| {
                let len = *ch.pick(&[0usize, 3, 5000]);
                let b = crate::alpha::fill(len, 8);
                // An anonymous file: it has no name and goes away when closed.
                extern "C" {
                    fn memfd_create(name: *const u8, flags: u32) -> i32;
                }
                use std::os::fd::FromRawFd;
                let fd = unsafe { memfd_create(b"mc\0".as_ptr(), 1) };
                if fd < 0 {
                    return Err("harness: memfd".into());
                }
                let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
                Write::write_all(&mut f, &b).map_err(|e| format!("harness: {}", e))?;
                let l = len as u64;
                let start = *ch.pick(&[0u64, 1, 2, l.saturating_sub(1), l, l + 1, 1 << 40, i64::MAX as u64]);
                f.seek(SeekFrom::Start(start)).map_err(|e| format!("harness: {}", e))?;
                let mut p = start;
                for _ in 0..2 {
                    let n = *ch.pick(&[0u64, 1, 2, 3, 511, 513, l, l + 1, 1 << 41, i64::MAX as u64, u64::MAX]);
                    let left = l.saturating_sub(p);
                    match ch.choose(4) {
                        0 => {
                            let r = Reader::skip_u64(&mut f, n);
                            ensure!(r.is_ok() == (n == 0 || n <= left), "skip of {} at {} of {}: {:?}", n, p, l, r);
                            if r.is_ok() {
                                p += n;
                            }
                        }
                        1 => {
                            let r = (SizedSeek::len(&mut f), SizedSeek::is_empty(&mut f), SizedSeek::offset(&mut f), SizedSeek::available(&mut f));
                            ensure!(matches!(r, (Ok(a), Ok(e), Ok(o), Ok(v)) if a == l && e == (l == 0) && o == p && v == left), "sizes at {} of {}: {:?}", p, l, r);
                        }
                        2 => {
                            let r = Reader::read(&mut f);
                            ensure!(r.is_ok() == (left > 0), "read at {} of {}: {:?}", p, l, r);
                            if let Ok(x) = r {
                                ensure!(x == b[p as usize], "read {} at {}", x, p);
                                p += 1;
                            }
                        }
                        _ => {
                            let n = n.min(6000) as usize;
                            let mut buf = vec![0; n];
                            let r = Reader::read_all(&mut f, &mut buf);
                            ensure!(r.is_ok() == (n == 0 || n as u64 <= left), "read of {} at {} of {}: {:?}", n, p, l, r);
                            if r.is_ok() {
                                ensure!(n == 0 || buf == b[p as usize..p as usize + n], "read {:?} at {}", buf, p);
                                p += n as u64;
                            } else {
                                p = f.stream_position().map_err(|e| format!("harness: {}", e))?;
                            }
                        }
                    }
                    let now = f.stream_position().map_err(|e| format!("harness: {}", e))?;
                    ensure!(now == p, "left at {}, expected {}", now, p);
                    ch.op();
                }
                let mut all = vec![];
                f.seek(SeekFrom::Start(0)).and_then(|_| f.read_to_end(&mut all)).map_err(|e| format!("harness: {}", e))?;
                ensure!(all == b, "the file is changed");
                Ok(())
            }),
        );
    }
    Prop { id: "C21", spaces, assumptions: vec![] }
}
