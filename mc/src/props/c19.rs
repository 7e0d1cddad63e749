//! C19: in-memory and limited readers are exact all-or-nothing cursors.
use super::docs::sizes;
use crate::engine::*;
use crate::env::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::{ErrorKind, LimitedReader, ReadReader, Reader, Result};
use std::sync::Arc;

/// The capabilities of the two in-memory readers.
trait Mem: MemoryReader {
    fn slice(&self) -> &[u8];
    fn can(&self, n: usize) -> Result<()>;
    fn extra(&self) -> bool {
        true
    }
}
impl<'a> Mem for ByteArrayReader<'a> {
    fn slice(&self) -> &[u8] {
        self.as_slice()
    }
    fn can(&self, n: usize) -> Result<()> {
        self.can_read(n)
    }
}
impl Mem for VecReader {
    fn slice(&self) -> &[u8] {
        self.as_slice()
    }
    fn can(&self, n: usize) -> Result<()> {
        self.can_read(n)
    }
    fn extra(&self) -> bool {
        self.vec().as_slice() == self.as_slice()
    }
}
/// A memory reader relying on every default method.
struct Own {
    b: Vec<u8>,
    p: usize,
}
impl Reader for Own {
    fn read(&mut self) -> Result<u8> {
        self.assert_can_read(1)?;
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    fn read_all(&mut self, o: &mut [u8]) -> Result<()> {
        self.assert_can_read(o.len())?;
        o.copy_from_slice(&self.b[self.p..self.p + o.len()]);
        self.p += o.len();
        Ok(())
    }
}
impl MemoryReader for Own {
    fn len(&self) -> usize {
        self.b.len()
    }
    fn offset(&self) -> usize {
        self.p
    }
    fn set_offset(&mut self, o: usize) {
        self.p = o.min(self.b.len());
    }
}
impl Mem for Own {
    fn slice(&self) -> &[u8] {
        &self.b
    }
    fn can(&self, n: usize) -> Result<()> {
        self.assert_can_read(n)
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Read,
    All(usize),
    Skip(usize),
    Skip64(u64),
    Set(usize),
}
fn ops(max: usize) -> Vec<Op> {
    let mut v = vec![Op::Read];
    for n in 0..=max + 1 {
        v.push(Op::All(n));
    }
    for n in (0..=max + 1).chain([usize::MAX, usize::MAX - 1, 1 << 63]) {
        v.push(Op::Skip(n));
        v.push(Op::Set(n));
    }
    for n in [0u64, 1, 2, max as u64 + 1, u32::MAX as u64 + 1, u64::MAX, 1 << 63] {
        v.push(Op::Skip64(n));
    }
    v
}

/// Everything observable agrees with the model cursor.
fn observe(r: &dyn Mem, b: &[u8], p: usize, hist: &dyn Fn() -> String) -> R {
    let l = b.len();
    if !(r.len() == l && r.offset() == p && r.available() == l - p && r.is_empty() == (l == 0) && r.slice() == b && r.extra()) {
        return Err(format!(
            "{}: len {} offset {} available {} is_empty {} data {:?}, expected position {} of {:?}",
            hist(),
            r.len(),
            r.offset(),
            r.available(),
            r.is_empty(),
            r.slice(),
            p,
            b
        ));
    }
    for n in [0, 1, l - p, l - p + 1, usize::MAX] {
        let ok = n <= l - p;
        if r.can(n).is_ok() != ok {
            return Err(format!("{}: can_read({}) at {} of {}: {:?}", hist(), n, p, l, r.can(n)));
        }
        let good = match r.assert_can_read(n) {
            Ok(()) => ok,
            Err(ErrorKind::EndOfData) => !ok && p == l,
            Err(ErrorKind::UnableToReadData) => !ok && p < l,
            Err(_) => false,
        };
        if !good {
            return Err(format!("{}: assert_can_read({}) at {} of {}: {:?}", hist(), n, p, l, r.assert_can_read(n)));
        }
    }
    Ok(())
}

fn memory(ch: &Ch, r: &mut dyn Mem, b: &[u8], ops: &[Op], steps: usize) -> R {
    let mut p = 0usize;
    let mut hist: Vec<Op> = vec![];
    for _ in 0..steps {
        let op = *ch.pick(ops);
        hist.push(op);
        let h = || format!("after {:?} on {} bytes", hist, b.len());
        let left = b.len() - p;
        match op {
            Op::Read => match r.read() {
                Ok(x) => {
                    ensure!(left > 0 && x == b[p], "{}: read {} at {}", h(), x, p);
                    p += 1;
                }
                Err(_) => ensure!(left == 0, "{}: read fails at {}", h(), p),
            },
            Op::All(n) => {
                let mut buf = vec![0xEE; n];
                match r.read_all(&mut buf) {
                    Ok(()) => {
                        ensure!(n <= left && buf == b[p..p + n], "{}: read_all gives {:?} at {}", h(), buf, p);
                        p += n;
                    }
                    Err(_) => ensure!(n > left, "{}: read_all fails at {}", h(), p),
                }
            }
            Op::Skip(n) => match r.skip(n) {
                Ok(()) => {
                    ensure!(n <= left, "{}: skip succeeds at {}", h(), p);
                    p += n;
                }
                Err(_) => ensure!(n > left, "{}: skip fails at {}", h(), p),
            },
            Op::Skip64(n) => match r.skip_u64(n) {
                Ok(()) => {
                    ensure!(n <= left as u64, "{}: skip_u64 succeeds at {}", h(), p);
                    p += n as usize;
                }
                Err(_) => ensure!(n > left as u64, "{}: skip_u64 fails at {}", h(), p),
            },
            Op::Set(n) => {
                r.set_offset(n);
                p = n.min(b.len());
            }
        }
        observe(r, b, p, &h)?;
        ch.op();
    }
    ch.seen(p as u64);
    ch.sample(|| format!("{:?} on {} bytes ends at {}", hist, b.len(), p));
    Ok(())
}

/// A pattern of operations repeated for tens of thousands of rounds on one
/// memory reader or, without the moves, on a limit over one.
fn repeated(ch: &Ch, kind: usize, b: &[u8], pattern: &[Op], rounds: usize) -> R {
    fn step(r: &mut dyn Reader, op: Op, b: &[u8], p: &mut usize, end: usize, buf: &mut [u8]) -> R {
        let left = end - *p;
        let (n, ok) = match op {
            Op::Read => match r.read() {
                Ok(x) => {
                    ensure!(left > 0 && x == b[*p], "read {} at {}", x, p);
                    (1, true)
                }
                Err(_) => (1, false),
            },
            Op::All(n) => {
                let ok = r.read_all(&mut buf[..n]).is_ok();
                ensure!(!ok || (n <= left && buf[..n] == b[*p..*p + n]), "read_all of {} at {}", n, p);
                (n as u64, ok)
            }
            Op::Skip(n) => (n as u64, r.skip(n).is_ok()),
            Op::Skip64(n) => (n, r.skip_u64(n).is_ok()),
            Op::Set(_) => (0, true),
        };
        ensure!(ok == (n <= left as u64), "{:?} at {} of {}: {}", op, p, end, ok);
        if ok {
            *p += n as usize;
        }
        Ok(())
    }
    let mut buf = vec![0u8; 70_000];
    let mut p = 0usize;
    let at = |round: usize, e: String| format!("round {} of {:?} on {} bytes: {}", round, pattern, b.len(), e);
    match kind {
        0 | 1 => {
            let (mut x, mut y);
            let r: &mut dyn Mem = if kind == 0 {
                x = ByteArrayReader::new(b);
                &mut x
            } else {
                y = VecReader::new(b);
                &mut y
            };
            for i in 0..rounds {
                for op in pattern {
                    if let Op::Set(n) = op {
                        r.set_offset(*n);
                        p = (*n).min(b.len());
                    }
                    step(r, *op, b, &mut p, b.len(), &mut buf).map_err(|e| at(i, e))?;
                    ensure!(r.offset() == p && r.available() == b.len() - p && r.len() == b.len() && r.can(1).is_ok() == (p < b.len()), "{}", at(i, format!("at {} with {} available, expected {}", r.offset(), r.available(), p)));
                }
                if i.is_power_of_two() {
                    observe(r, b, p, &|| at(i, String::new()))?;
                }
            }
        }
        _ => {
            let mut src = ByteArrayReader::new(b);
            let end = b.len() - 3;
            {
                let mut r = LimitedReader::new(&mut src, end);
                for i in 0..rounds {
                    for op in pattern {
                        step(&mut r, *op, b, &mut p, end, &mut buf).map_err(|e| at(i, e))?;
                        ensure!(r.available() == end - p && r.empty() == (p == end) && r.can_read(1).is_ok() == (p < end), "{}", at(i, format!("{} available, expected {}", r.available(), end - p)));
                    }
                }
            }
            ensure!(src.offset() == p, "{:?}: the source is at {}, expected {}", pattern, src.offset(), p);
        }
    }
    ch.ops((rounds * pattern.len()) as u64);
    Ok(())
}

/// An all-or-nothing source that counts every call it receives and may fail.
struct Rec<'a> {
    ch: &'a Ch,
    b: Vec<u8>,
    p: usize,
    calls: usize,
    moved: usize,
    failed: bool,
}
impl<'a> Rec<'a> {
    fn take(&mut self, n: usize) -> Result<&[u8]> {
        self.calls += 1;
        if self.ch.dev(2) == 1 {
            self.failed = true;
            return Err(ErrorKind::BoxedError(Box::new(Injected(7))));
        }
        if self.b.len() - self.p < n {
            return Err(ErrorKind::EndOfData);
        }
        self.p += n;
        self.moved += n;
        Ok(&self.b[self.p - n..self.p])
    }
}
impl<'a> Reader for Rec<'a> {
    fn read(&mut self) -> Result<u8> {
        Ok(self.take(1)?[0])
    }
    fn read_all(&mut self, o: &mut [u8]) -> Result<()> {
        let n = o.len();
        o.copy_from_slice(self.take(n)?);
        Ok(())
    }
    fn skip(&mut self, n: usize) -> Result<()> {
        self.take(n).map(|_| ())
    }
}
/// What the drive through nested limits needs to see of the source.
struct Probe {
    rec: *mut Rec<'static>,
}
impl Probe {
    // The source outlives the drive and is only looked at between two operations.
    fn calls(&self) -> usize {
        unsafe { (*self.rec).calls }
    }
    fn pos(&self) -> usize {
        unsafe { (*self.rec).p }
    }
    fn failed(&self) -> bool {
        unsafe { std::mem::take(&mut (*self.rec).failed) }
    }
    fn byte(&self, i: usize) -> u8 {
        unsafe { (&(*self.rec).b)[i] }
    }
    fn len(&self) -> usize {
        unsafe { (*self.rec).b.len() }
    }
}

#[derive(Clone, Copy, Debug)]
enum L {
    Read,
    All(usize),
    Skip(usize),
    Skip64(u64),
    End,
    Open(usize),
    Close,
}

/// Drives a limited reader; `outer` are the limits remaining around it.
fn limited(ch: &Ch, r: &mut LimitedReader, probe: &Probe, limits: &mut Vec<usize>, steps: &mut usize, ops: &[L], hist: &mut Vec<L>, max_depth: usize) -> R {
    let check = |r: &LimitedReader, limits: &Vec<usize>, hist: &Vec<L>| -> R {
        let a = *limits.last().unwrap();
        if r.available() != a || r.empty() != (a == 0) {
            return Err(format!("{:?}: available {} empty {}, expected {}", hist, r.available(), r.empty(), a));
        }
        for n in [0, 1, a, a.saturating_add(1), usize::MAX] {
            if r.can_read(n).is_ok() != (n <= a) {
                return Err(format!("{:?}: can_read({}) with {} available: {:?}", hist, n, a, r.can_read(n)));
            }
        }
        Ok(())
    };
    check(r, limits, hist)?;
    while *steps > 0 {
        let op = *ch.pick(ops);
        match op {
            L::Close => {
                if limits.len() > 1 {
                    hist.push(op);
                    return Ok(());
                }
                continue_or_stop(steps);
                continue;
            }
            L::Open(n) => {
                if limits.len() >= max_depth {
                    continue_or_stop(steps);
                    continue;
                }
                *steps -= 1;
                hist.push(op);
                let before = (*limits).clone();
                limits.push(n);
                {
                    let mut inner = LimitedReader::new(r, n);
                    limited(ch, &mut inner, probe, limits, steps, ops, hist, max_depth)?;
                }
                limits.pop();
                let _ = before;
                check(r, limits, hist)?;
                continue;
            }
            _ => {}
        }
        *steps -= 1;
        hist.push(op);
        // What fits: every limit around, then the source itself.
        let n = match op {
            L::Read => 1u64,
            L::All(n) | L::Skip(n) => n as u64,
            L::Skip64(n) => n,
            L::End => *limits.last().unwrap() as u64,
            _ => 0,
        };
        let (calls, pos) = (probe.calls(), probe.pos());
        let a = *limits.last().unwrap() as u64;
        let fits_limits = limits.iter().all(|l| n <= *l as u64);
        let fits = fits_limits && n <= (probe.len() - pos) as u64;
        let mut buf = vec![0xEE; if let L::All(n) = op { n.min(64) } else { 0 }];
        let (ok, got) = match op {
            L::Read => match r.read() {
                Ok(x) => (true, vec![x]),
                Err(_) => (false, vec![]),
            },
            L::All(_) => (r.read_all(&mut buf).is_ok(), buf.clone()),
            L::Skip(n) => (r.skip(n).is_ok(), vec![]),
            L::Skip64(n) => (r.skip_u64(n).is_ok(), vec![]),
            _ => (r.goto_end().is_ok(), vec![]),
        };
        let failed = probe.failed();
        if n > a {
            ensure!(probe.calls() == calls, "{:?}: the source is touched by a request for {} bytes when {} are allowed", hist, n, a);
        }
        if failed {
            ensure!(!ok, "{:?}: succeeds although its source failed", hist);
        } else {
            ensure!(ok == fits, "{:?}: succeeds: {}, with limits {:?} and {} bytes left", hist, ok, limits, probe.len() - pos);
        }
        if ok {
            ensure!(probe.pos() == pos + n as usize, "{:?}: the source moved from {} to {}", hist, pos, probe.pos());
            for (i, g) in got.iter().enumerate() {
                ensure!(*g == probe.byte(pos + i), "{:?}: got {:?} at {}", hist, got, pos);
            }
            for l in limits.iter_mut() {
                *l -= n as usize;
            }
        } else {
            ensure!(probe.pos() == pos, "{:?}: failed but the source moved from {} to {}", hist, pos, probe.pos());
        }
        check(r, limits, hist)?;
        ch.op();
    }
    Ok(())
}
fn continue_or_stop(steps: &mut usize) {
    *steps -= 1;
}

/// One operation inside nested limits; what is left of them, the innermost first.
fn within(r: &mut dyn Reader, limits: &[usize], op: usize, n: usize, got: &mut [u8], left: &mut Vec<usize>) -> bool {
    let mut l = LimitedReader::new(r, limits[0]);
    let ok = if limits.len() > 1 {
        within(&mut l, &limits[1..], op, n, got, left)
    } else {
        match op {
            0 => l.read_all(got).is_ok(),
            1 => l.skip(n).is_ok(),
            2 => l.skip_u64(n as u64).is_ok(),
            _ => l.goto_end().is_ok(),
        }
    };
    left.push(l.available());
    ok
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    spaces.push(super::huge::cursors(tier, 0));
    {
        let n = if th { 5 } else { 4 };
        let max = 4;
        let o = ops(max);
        spaces.push(space("memory", format!("every sequence of {} of {} operations on readers of 0 to {} bytes, 3 kinds", n, o.len(), max), move |ch| {
            let len = ch.choose(max + 1);
            let b: Vec<u8> = (0..len).map(|i| 0xF0 + i as u8).collect();
            match ch.choose(3) {
                0 => memory(ch, &mut ByteArrayReader::new(&b), &b, &o, n),
                1 => memory(ch, &mut VecReader::new(&b), &b, &o, n),
                _ => {
                    // A user reader with the default methods; without overflowing
                    // skips, which are not all-or-nothing by default.
                    let o: Vec<Op> = o.iter().cloned().filter(|x| matches!(x, Op::Read | Op::All(_) | Op::Set(_) | Op::Skip(0..=5))).collect();
                    memory(ch, &mut Own { b: b.clone(), p: 0 }, &b, &o, n)
                }
            }
        }));
    }
    {
        // Fewer operations, longer histories.
        let n = if th { 8 } else { 6 };
        let o = vec![Op::Read, Op::All(2), Op::All(0), Op::Skip(1), Op::Skip(3), Op::Skip64(2), Op::Set(0), Op::Set(2), Op::Set(usize::MAX)];
        spaces.push(space("memory_long", format!("every sequence of {} of {} operations on readers of 0, 3 and 5 bytes, 2 kinds", n, o.len()), move |ch| {
            let len = *ch.pick(&[0usize, 3, 5]);
            let b: Vec<u8> = (0..len).map(|i| 0xA0 + i as u8).collect();
            if ch.flag() {
                memory(ch, &mut VecReader::new(&b), &b, &o, n)
            } else {
                memory(ch, &mut ByteArrayReader::new(&b), &b, &o, n)
            }
        }));
    }
    {
        // Skips of more than 16 bits.
        let top = if th { 1 << 20 } else { 262_145 };
        let z: Vec<usize> = sizes(top).into_iter().filter(|n| *n > 1500).chain([65_536 + 511, 65_536 + 512, 131_072 + 512, 196_608]).collect();
        spaces.push(space("large_skips", format!("skips of {} counts from 1500 to {} by every method and reader, at 3 positions, with one byte too few, just enough, and more", z.len(), top), move |ch| {
            let n = *ch.pick(&z);
            let k = ch.choose(N_READERS);
            for start in [0usize, 1, 600] {
                for more in [-1i64, 0, 1, 700] {
                    let size = (start + n) as i64 + more;
                    let b: Vec<u8> = (0..size as usize).map(|i| (i * 7 + i / 256) as u8).collect();
                    for wide in [false, true] {
                        let (r, used) = with_reader(k, &b, |r| -> std::result::Result<Option<Option<u8>>, String> {
                            r.read_all(&mut vec![0; start]).map_err(|e| format!("{:?}", e))?;
                            let x = if wide { r.skip_u64(n as u64) } else { r.skip(n) };
                            Ok(x.ok().map(|_| r.read().ok()))
                        });
                        let want = if more < 0 { None } else { Some(b.get(start + n).copied()) };
                        ensure_eq!(r?, want, "skip of {} at {} of {} by {}", n, start, size, reader_name(k));
                        ensure!(more < 0 || used == (start + n + 1).min(b.len()), "skip of {} at {} of {} by {}: {} bytes used", n, start, size, reader_name(k), used);
                        ch.op();
                    }
                }
            }
            ch.visit(23);
            ch.seen(n as u64);
            Ok(())
        }));
    }
    {
        // Where the bytes are in memory, at either side.
        let top = if th { 300 } else { 100 };
        spaces.push(space("placement", format!("reads of every length from 0 to {} at every position modulo 16 of the source, in the reader and in memory, to every position modulo 16 of the destination, by 3 kinds of reader and a limit over them", top), move |ch| {
            let a = ch.choose(16);
            let at = ch.choose(16);
            let kind = ch.choose(5);
            let all: Vec<u8> = (0..top + 64).map(|i| (i * 37 + i / 256 + 1) as u8).collect();
            let base = all.as_ptr().align_offset(16);
            let src = &all[base + a..];
            let mut out = vec![0u8; top + 64];
            let ob = out.as_ptr().align_offset(16);
            for n in 0..=top.min(src.len() - at - 1) {
                for d in 0..16 {
                    out.fill(0xEE);
                    let o = &mut out[ob + d..ob + d + n];
                    let want = src[at + n];
                    let go = |r: &mut dyn Reader, o: &mut [u8]| -> Result<u8> {
                        r.skip(at)?;
                        r.read_all(o)?;
                        r.read()
                    };
                    let r = match kind {
                        0 => go(&mut ByteArrayReader::new(src), o),
                        1 => go(&mut VecReader::new(src), o),
                        2 => go(&mut Own { b: src.to_vec(), p: 0 }, o),
                        3 => go(&mut LimitedReader::new(&mut ByteArrayReader::new(src), at + n + 1), o),
                        _ => go(&mut LimitedReader::new(&mut VecReader::new(src), usize::MAX), o),
                    };
                    ensure!(matches!(r, Ok(x) if x == want), "{} bytes at {}: {:?}, expected {}", n, at, r, want);
                    ensure!(out[ob + d..ob + d + n] == src[at..at + n], "{} bytes at {} from address {} to address {} modulo 16 by reader {}: {}", n, at, a, d, kind, crate::model::hex(&out[ob + d..ob + d + n]));
                    ensure!(out[..ob + d].iter().chain(&out[ob + d + n..]).all(|x| *x == 0xEE), "{} bytes at {} from address {} to address {} modulo 16 by reader {}: written outside the destination", n, at, a, d, kind);
                    ch.op();
                }
            }
            ch.visit(16 * top as u64);
            ch.seen((a * 16 + at) as u64);
            Ok(())
        }));
    }
    {
        // Large skips through the default method, in chunks.
        let top = if th { 4200 } else { 1700 };
        spaces.push(space("skips", format!("skips of every count from 0 to {} by the default method from 3 kinds of source holding 3 sizes", top), move |ch| {
            let size = *ch.pick(&[700usize, 1024, 1536]);
            let kind = ch.choose(3);
            let start = *ch.pick(&[0usize, 1, 511, 512, 513]);
            let b: Vec<u8> = (0..size).map(|i| (i * 7 + i / 256) as u8).collect();
            for n in 0..=top {
                for wide in [false, true] {
                    let go = |r: &mut dyn Reader| -> std::result::Result<Option<u8>, String> {
                        for _ in 0..start {
                            r.read().map_err(|e| format!("{:?}", e))?;
                        }
                        let x = if wide { r.skip_u64(n as u64) } else { r.skip(n) };
                        match x {
                            Ok(()) => Ok(Some(r.read().unwrap_or(0))),
                            Err(_) => Ok(None),
                        }
                    };
                    let got = match kind {
                        0 => go(&mut ByteReader::new(&b))?,
                        1 => {
                            let mut s = &b[..];
                            go(&mut ReadReader::new(&mut s))?
                        }
                        _ => {
                            let mut r = ByteReader::new(&b);
                            go(&mut LimitedReader::new(&mut r, size))?
                        }
                    };
                    let want = if start + n <= size { Some(b.get(start + n).cloned().unwrap_or(0)) } else { None };
                    ensure_eq!(got, want, "skip of {} at {} of {} from source {}", n, start, size, kind);
                    ch.op();
                }
            }
            ch.visit(top as u64);
            Ok(())
        }));
    }
    {
        // Reads and skips of many bytes that the limits allow and the source refuses.
        let z: Vec<usize> = sizes(if th { 1 << 20 } else { 262_145 });
        spaces.push(space("limited_large", format!("reads and skips of {} counts up to {} through 7 nestings of up to 3 limits (exact, more, less, unlimited) at 3 positions, from all-or-nothing sources that hold half, one byte less, just enough or more, and from one that fails: nothing is consumed unless all is", z.len(), z[z.len() - 1]), move |ch| {
            let n = *ch.pick(&z);
            let start = *ch.pick(&[0usize, 1, 513]);
            const M: usize = usize::MAX;
            let limits: &[usize] = &match ch.choose(7) {
                0 => vec![n],
                1 => vec![n + 1],
                2 => vec![M],
                3 => vec![M, n],
                4 => vec![n + 1, n],
                5 => vec![n + 9, n + 1, n],
                _ => vec![n, n + 2, n + 1],
            };
            let mut cases = 0;
            for (have, fails) in [(n.saturating_sub(1), false), (n / 2, false), (n, false), (n + 700, false), (n + 700, true)] {
                let b: Vec<u8> = (0..start + have).map(|i| (i * 7 + i / 256) as u8).collect();
                for op in 0..4 {
                    let count = if op == 3 { limits[limits.len() - 1] } else { n };
                    for src in if fails { 2..3 } else { 0..3 } {
                        let what = || format!("operation {} for {} bytes through limits of {:?} over source {} with {} bytes left{}", op, count, limits, src, have, if fails { ", failing" } else { "" });
                        let (mut m, mut v, mut w) = (ByteArrayReader::new(&b), VecReader::new(if src == 1 { &b } else { &[] }), FaultReader::new(&b, if fails { (start > 0) as usize } else { M }, 0, 2));
                        let r: &mut dyn Reader = match src {
                            0 => &mut m,
                            1 => &mut v,
                            _ => &mut w,
                        };
                        r.read_all(&mut vec![0; start]).map_err(|e| format!("{}: {:?}", what(), e))?;
                        let mut got = vec![0u8; if op == 0 { n } else { 0 }];
                        let mut left = vec![];
                        let ok = within(r, limits, op, n, &mut got, &mut left);
                        left.reverse();
                        ensure!(ok == (count <= have && limits.iter().all(|l| count <= *l) && (!fails || count == 0)), "{}: succeeds: {}", what(), ok);
                        let moved = if ok { count } else { 0 };
                        for (l, a) in limits.iter().zip(&left) {
                            ensure!(*a == l - moved, "{}: succeeds: {}, the limits are {:?} then", what(), ok, left);
                        }
                        let pos = [m.offset(), v.offset(), w.p][src];
                        ensure!(pos == start + moved, "{}: succeeds: {}, the source moved from {} to {}", what(), ok, start, pos);
                        ensure!(!ok || op > 0 || got[..] == b[start..start + n], "{}: other bytes", what());
                        ch.op();
                        cases += 1;
                    }
                }
            }
            ch.visit(cases - 1);
            ch.seen(n as u64);
            Ok(())
        }));
    }
    {
        let n = if th { 5 } else { 4 };
        let mut o = vec![L::Read, L::End, L::Close];
        for k in [0usize, 1, 2, 3, 4, 5] {
            o.push(L::All(k));
            o.push(L::Open(k));
        }
        o.push(L::Open(usize::MAX));
        for k in [0usize, 1, 2, 4, usize::MAX] {
            o.push(L::Skip(k));
        }
        for k in [0u64, 1, 3, u32::MAX as u64 + 1, u64::MAX] {
            o.push(L::Skip64(k));
        }
        let o = Arc::new(o);
        let run = move |ch: &Ch, steps: usize, o: &[L], lens: &[usize], lims: &[usize]| -> R {
            let len = *ch.pick(lens);
            let lim = *ch.pick(lims);
            // The source borrows `ch`; the probe looks at it between operations only.
            let mut rec = Rec { ch, b: (0..len).map(|i| 0xC0 + i as u8).collect(), p: 0, calls: 0, moved: 0, failed: false };
            let probe = Probe { rec: &mut rec as *mut Rec as *mut Rec<'static> };
            let src: &mut dyn Reader = unsafe { &mut *(probe.rec as *mut Rec) };
            let mut r = LimitedReader::new(src, lim);
            let mut limits = vec![lim];
            let mut left = steps;
            let mut hist = vec![];
            let res = limited(ch, &mut r, &probe, &mut limits, &mut left, o, &mut hist, 3);
            ch.seen(probe.pos() as u64 * 64 + limits.len() as u64);
            ch.sample(|| format!("limit {} over {} bytes: {:?}", lim, len, hist));
            res.map_err(|e| format!("limit {} over {} bytes: {}", lim, len, e))
        };
        let o1 = o.clone();
        spaces.push(space("limited", format!("every sequence of {} of {} operations, opening and closing up to 3 nested limits, over sources of 0 to 5 bytes and limits of 0 to 5 bytes and without limit", n, o.len()), move |ch| run(ch, n, &o1, &[0, 1, 2, 3, 5], &[0, 1, 2, 3, 5, usize::MAX])));
        let short: Vec<L> = vec![L::Read, L::All(2), L::Skip(1), L::Skip(4), L::End, L::Open(1), L::Open(3), L::Close];
        let k = if th { 8 } else { 7 };
        spaces.push(space("limited_long", format!("every sequence of {} of {} operations over a source of 4 bytes, limits of 2, 3 and 9 bytes", k, short.len()), move |ch| run(ch, k, &short, &[4], &[2, 3, 9])));
        let faulty: Vec<L> = vec![L::Read, L::All(2), L::All(0), L::Skip(1), L::Skip64(2), L::End, L::Open(3), L::Close];
        let k = if th { 6 } else { 5 };
        spaces.push(space("limited_faults", format!("every sequence of {} of {} operations over a source of 5 bytes failing at any 2 operations", k, faulty.len()), move |ch| run(ch, k, &faulty, &[5], &[4, 9])).devs(2));
    }
    {
        // Histories far beyond any 16-bit count, on one object.
        let k = if th { 3 } else { 2 };
        let o = [Op::Read, Op::All(2), Op::All(0), Op::All(70_000), Op::Skip(1), Op::Skip(65_536), Op::Skip(usize::MAX), Op::Skip64(3), Op::Skip64(u64::MAX), Op::Set(0), Op::Set(1), Op::Set(65_535), Op::Set(usize::MAX)];
        spaces.push(space("repeated", format!("every pattern of 1 to {} of {} operations repeated for 70000 rounds over 150000 and 65539 bytes, memory readers and limits", k, o.len()), move |ch| {
            let kind = ch.choose(3);
            let len = *ch.pick(&[150_000usize, 65_539]);
            let n = ch.range(1, k);
            let pat: Vec<Op> = (0..n).map(|_| *ch.pick(&o)).collect();
            if kind == 2 && pat.iter().any(|x| matches!(x, Op::Set(_))) {
                return Ok(());
            }
            let b = crate::alpha::fill(len, 5);
            ch.seen((kind * 2 + len % 2) as u64);
            repeated(ch, kind, &b, &pat, 70_000)
        }));
    }
    {
        // The helper that checks a limited reader is exhausted.
        use il2_iltags::tags::util::limited_reader_ensure_empty;
        spaces.push(space("ensure_empty", "limits of 0 to 4 bytes after every number of bytes read: the check for emptiness, with its own error", |ch| {
            let lim = ch.choose(5);
            let used = ch.choose(lim + 1);
            let b = [1u8, 2, 3, 4];
            let mut s = ByteArrayReader::new(&b);
            let mut r = LimitedReader::new(&mut s, lim);
            for _ in 0..used {
                r.read().map_err(|e| format!("{:?}", e))?;
            }
            for k in 0..3 {
                use il2_iltags::tags::ErrorKind as E;
                let (e, is): (E, fn(&E) -> bool) = match k {
                    0 => (E::CorruptedData, |e| matches!(e, E::CorruptedData)),
                    1 => (E::UnknownTag, |e| matches!(e, E::UnknownTag)),
                    _ => (E::TagTooLarge, |e| matches!(e, E::TagTooLarge)),
                };
                match limited_reader_ensure_empty(&r, e) {
                    Ok(()) => ensure!(used == lim, "{} of {} bytes read and it counts as empty", used, lim),
                    Err(e) => ensure!(used < lim && is(&e), "{} of {} bytes read: {:?}", used, lim, e),
                }
                ch.op();
            }
            Ok(())
        }));
    }
    Prop { id: "C19", spaces, assumptions: vec![] }
}
