//! C20: in-memory writers are exact cursors over their buffer.
use crate::engine::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::{Reader, Result, Writer};
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
enum Op {
    Write,
    All(usize),
    Via(usize),
    Set(usize),
    ReadOnly(bool),
}
fn ops(max: usize, read_only: bool) -> Vec<Op> {
    let mut v = vec![Op::Write];
    for n in 0..=max + 1 {
        v.push(Op::All(n));
        v.push(Op::Set(n));
    }
    v.push(Op::Set(usize::MAX));
    v.push(Op::Via(0));
    v.push(Op::Via(2));
    if read_only {
        v.push(Op::ReadOnly(true));
        v.push(Op::ReadOnly(false));
    }
    v
}

/// The two growing writers seen alike.
trait Grow: Writer {
    fn off(&self) -> usize;
    fn set(&mut self, o: usize);
    fn ro(&self) -> bool;
    fn set_ro(&mut self, r: bool);
    fn can(&self) -> Result<()>;
    fn data(&self) -> (&[u8], &Vec<u8>);
    fn written(&self) -> Option<usize>;
}
macro_rules! grow {
    ($t:ty, $w:expr) => {
        impl Grow for $t {
            fn off(&self) -> usize {
                self.get_offset()
            }
            fn set(&mut self, o: usize) {
                self.set_offset(o)
            }
            fn ro(&self) -> bool {
                self.is_read_only()
            }
            fn set_ro(&mut self, r: bool) {
                self.set_read_only(r)
            }
            fn can(&self) -> Result<()> {
                self.can_write()
            }
            fn data(&self) -> (&[u8], &Vec<u8>) {
                (self.as_slice(), self.vec())
            }
            fn written(&self) -> Option<usize> {
                $w(self)
            }
        }
    };
}
grow!(VecWriter, |_: &VecWriter| None);
grow!(BorrowedVecWriter<'_>, |w: &BorrowedVecWriter| Some(w.bytes_written()));

struct Model {
    b: Vec<u8>,
    p: usize,
    initial: usize,
    ro: bool,
    next: u8,
}
impl Model {
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let v: Vec<u8> = (0..n).map(|i| self.next.wrapping_add(i as u8)).collect();
        self.next = self.next.wrapping_add(n as u8);
        v
    }
    fn put(&mut self, x: &[u8]) {
        for v in x {
            if self.p < self.b.len() {
                self.b[self.p] = *v;
            } else {
                self.b.push(*v);
            }
            self.p += 1;
        }
    }
}

fn growing(ch: &Ch, w: &mut dyn Grow, m: &mut Model, ops: &[Op], steps: usize) -> R {
    let mut hist: Vec<Op> = vec![];
    let l0 = m.b.len();
    let look = |w: &dyn Grow, m: &Model, hist: &[Op]| -> R {
        let (a, v) = w.data();
        if !(a == &m.b[..] && v == &m.b && w.off() == m.p && w.ro() == m.ro && w.can().is_ok() == !m.ro) {
            return Err(format!(
                "{:?} from {} bytes at {}: {:?} at {} (read only {}, can write {:?}), expected {:?} at {} (read only {})",
                hist,
                l0,
                m.initial,
                a,
                w.off(),
                w.ro(),
                w.can(),
                m.b,
                m.p,
                m.ro
            ));
        }
        if let Some(n) = w.written() {
            if n != m.p.saturating_sub(m.initial) {
                return Err(format!("{:?} from {} bytes at {}: {} bytes written, position {}", hist, l0, m.initial, n, m.p));
            }
        }
        Ok(())
    };
    look(w, m, &hist)?;
    for _ in 0..steps {
        let op = *ch.pick(ops);
        hist.push(op);
        let (_, res) = match op {
            Op::Write => {
                let x = m.bytes(1);
                let r = w.write(x[0]);
                (1, Some((r, x)))
            }
            Op::All(n) => {
                let x = m.bytes(n);
                let r = w.write_all(&x);
                (n, Some((r, x)))
            }
            Op::Via(n) => {
                let x = m.bytes(n.max(1));
                let v = w.as_writer();
                let r = if n == 0 { v.write(x[0]) } else { v.write_all(&x) };
                (x.len(), Some((r, x)))
            }
            Op::Set(o) => {
                w.set(o);
                m.p = o.min(m.b.len());
                (0, None)
            }
            Op::ReadOnly(r) => {
                w.set_ro(r);
                m.ro = r;
                (0, None)
            }
        };
        if let Some((r, x)) = res {
            ensure!(r.is_ok() == !m.ro, "{:?} from {} bytes at {}: {:?}, read only {}", hist, l0, m.initial, r, m.ro);
            if !m.ro {
                m.put(&x);
            }
        }
        look(w, m, &hist)?;
        ch.op();
    }
    ch.seen_bytes(&m.b);
    ch.seen(m.p as u64);
    ch.sample(|| format!("{:?} from {} bytes at {} gives {:?} at {}", hist, l0, m.initial, m.b, m.p));
    Ok(())
}

fn fixed(ch: &Ch, len: usize, ops: &[Op], steps: usize) -> R {
    // Guard bytes around the window.
    let mut mem: Vec<u8> = vec![0xEE; len + 4];
    let mut m = Model { b: vec![0xDD; len], p: 0, initial: 0, ro: false, next: 1 };
    mem[2..2 + len].fill(0xDD);
    let mut hist: Vec<Op> = vec![];
    {
        let base = mem.as_ptr();
        let mut w = ByteArrayWriter::new(&mut mem[2..2 + len]);
        for _ in 0..steps {
            let op = *ch.pick(ops);
            hist.push(op);
            let res = match op {
                Op::Write => {
                    let x = m.bytes(1);
                    Some((w.write(x[0]), x))
                }
                Op::All(n) => {
                    let x = m.bytes(n);
                    Some((w.write_all(&x), x))
                }
                Op::Via(n) => {
                    let x = m.bytes(n.max(1));
                    let v = w.as_writer();
                    Some((if n == 0 { v.write(x[0]) } else { v.write_all(&x) }, x))
                }
                Op::Set(o) => {
                    w.set_offset(o);
                    m.p = o.min(len);
                    None
                }
                Op::ReadOnly(_) => None,
            };
            if let Some((r, x)) = res {
                let fits = x.len() <= len - m.p;
                ensure!(r.is_ok() == fits, "{:?} on {} bytes at {}: {:?}", hist, len, m.p, r);
                if fits {
                    m.put(&x);
                }
            }
            ensure!(w.get_offset() == m.p && w.available() == len - m.p, "{:?} on {} bytes: at {} with {} available, expected at {}", hist, len, w.get_offset(), w.available(), m.p);
            // The buffer as it is now (the writer only lends it).
            let now = unsafe { std::slice::from_raw_parts(base.add(2), len) };
            ensure!(now == &m.b[..], "{:?} on {} bytes: buffer {:?}, expected {:?}", hist, len, now, m.b);
            ch.op();
        }
    }
    ensure!(mem[..2] == [0xEE, 0xEE] && mem[2 + len..] == [0xEE, 0xEE], "{:?} on {} bytes: the memory around the buffer is changed: {:?}", hist, len, mem);
    ch.seen_bytes(&m.b);
    ch.seen(m.p as u64);
    Ok(())
}

fn borrowed(ch: &Ch, len: usize, off: usize, ops: &[Op], n: usize) -> R {
    let mut v: Vec<u8> = (0..len).map(|i| 0xA0 + i as u8).collect();
    let mut m = Model { b: v.clone(), p: off.min(len), initial: off.min(len), ro: false, next: 1 };
    {
        let mut w = BorrowedVecWriter::with_offset(&mut v, off);
        growing(ch, &mut w, &mut m, ops, n)?;
    }
    ensure!(v == m.b, "the vector left by the writer is {:?}, expected {:?}", v, m.b);
    Ok(())
}
fn owned(ch: &Ch, cap: usize, ops: &[Op], n: usize) -> R {
    let mut w = match cap {
        0 => VecWriter::new(),
        1 => VecWriter::default(),
        x => VecWriter::with_capacity(x),
    };
    let mut m = Model { b: vec![], p: 0, initial: 0, ro: false, next: 1 };
    growing(ch, &mut w, &mut m, ops, n)?;
    let v: Vec<u8> = w.into();
    ensure!(v == m.b, "the vector taken from the writer is {:?}, expected {:?}", v, m.b);
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    spaces.push(super::huge::cursors(tier, 1));
    {
        let n = if th { 6 } else { 5 };
        let o = Arc::new(ops(4, true));
        let o1 = o.clone();
        spaces.push(space("vec", format!("every sequence of {} of {} operations on owned growing writers of 3 initial capacities", n, o.len()), move |ch| owned(ch, *ch.pick(&[0usize, 1, 3]), &o1, n)));
        let n = if th { 5 } else { 4 };
        let o1 = o.clone();
        spaces.push(space("borrowed", format!("every sequence of {} of {} operations over vectors of 0 to 4 bytes from every offset (also beyond the end)", n, o.len()), move |ch| {
            let len = ch.choose(5);
            let off = *ch.pick(&[0usize, 1, 2, 3, 4, 5, usize::MAX]);
            borrowed(ch, len, off, &o1, n)
        }));
    }
    {
        let n = if th { 6 } else { 5 };
        let o = ops(4, false);
        spaces.push(space("fixed", format!("every sequence of {} of {} operations on fixed buffers of 0 to 4 bytes", n, o.len()), move |ch| {
            let len = ch.choose(5);
            fixed(ch, len, &o, n)
        }));
    }
    {
        let n = if th { 8 } else { 7 };
        let o = vec![Op::Write, Op::All(3), Op::All(0), Op::Set(0), Op::Set(2), Op::Set(usize::MAX), Op::ReadOnly(true), Op::ReadOnly(false)];
        spaces.push(space("long", format!("every sequence of {} of {} operations on the three kinds of writer", n, o.len()), move |ch| match ch.choose(3) {
            0 => owned(ch, 0, &o, n),
            1 => borrowed(ch, 3, 1, &o, n),
            _ => {
                let o: Vec<Op> = o.iter().cloned().filter(|x| !matches!(x, Op::ReadOnly(_))).collect();
                fixed(ch, 5, &o, n)
            }
        }));
    }
    {
        // Large writes across a growing vector, at every offset around its end.
        spaces.push(space("large", "writes of 0 to 600 bytes at every position around the end of vectors of 0, 1, 255, 256 and 300 bytes", |ch| {
            let len = *ch.pick(&[0usize, 1, 255, 256, 300]);
            let n = ch.choose(601);
            for back in 0..=len.min(40) {
                let off = len - back;
                let x = crate::alpha::fill(n, 9);
                let mut want = vec![0xEE; len];
                if want.len() < off + n {
                    want.resize(off + n, 0);
                }
                want[off..off + n].copy_from_slice(&x);
                let mut v = vec![0xEE; len];
                {
                    let mut w = BorrowedVecWriter::with_offset(&mut v, off);
                    ensure!(w.write_all(&x).is_ok() && w.bytes_written() == n && w.get_offset() == off + n, "writing {} bytes at {} of {}", n, off, len);
                }
                ensure!(v == want, "writing {} bytes at {} of {} gives {} bytes", n, off, len, v.len());
                let mut w = VecWriter::new();
                let _ = w.write_all(&vec![0xEE; len]);
                w.set_offset(off);
                ensure!(w.write_all(&x).is_ok() && w.as_slice() == &want[..], "writing {} bytes at {} of an owned vector of {}", n, off, len);
                let mut a = vec![0xEE; len];
                {
                    let mut w = ByteArrayWriter::new(&mut a);
                    w.set_offset(off);
                    let r = w.write_all(&x);
                    ensure!(r.is_ok() == (n <= back), "writing {} bytes at {} of a buffer of {}: {:?}", n, off, len, r);
                }
                let want: Vec<u8> = if n <= back { want } else { vec![0xEE; len] };
                ensure!(a == want, "writing {} bytes at {} of a buffer of {} gives {:?}", n, off, len, a);
                ch.ops(3);
            }
            ch.visit(len.min(40) as u64);
            Ok(())
        }));
    }
    {
        // Histories far beyond any 16-bit count, on one object.
        let k = if th { 3 } else { 2 };
        let o = vec![Op::Write, Op::All(2), Op::All(0), Op::Via(0), Op::All(65_536), Op::Set(0), Op::Set(1), Op::Set(65_535), Op::Set(usize::MAX), Op::ReadOnly(true), Op::ReadOnly(false)];
        spaces.push(space("repeated", format!("every pattern of 1 to {} of {} operations repeated for 70000 rounds (fewer when they write much) on the three kinds of writer", k, o.len()), move |ch| {
            let kind = ch.choose(3);
            let n = ch.range(1, k);
            let pat: Vec<Op> = (0..n).map(|_| *ch.pick(&o)).collect();
            let rounds = if pat.iter().any(|x| matches!(x, Op::All(65_536))) { 24 } else { 70_000 };
            let put = |w: &mut dyn Writer, op: Op, x: &[u8]| match op {
                Op::Via(0) => w.as_writer().write(x[0]),
                Op::Write => w.write(x[0]),
                _ => w.write_all(x),
            };
            let count = |op: Op| match op {
                Op::All(n) => n,
                Op::Write | Op::Via(_) => 1,
                _ => 0,
            };
            let src = crate::alpha::fill(65_600, 3);
            if kind == 2 {
                if pat.iter().any(|x| matches!(x, Op::ReadOnly(_))) {
                    return Ok(());
                }
                let len = 140_000;
                let mut mem = vec![0u8; len];
                let mut want = vec![0u8; len];
                let mut p = 0usize;
                {
                    let mut w = ByteArrayWriter::new(&mut mem);
                    for i in 0..rounds {
                        for op in &pat {
                            if let Op::Set(n) = op {
                                w.set_offset(*n);
                                p = (*n).min(len);
                            } else {
                                let n = count(*op);
                                let x = &src[i % 64..i % 64 + n];
                                let ok = put(&mut w, *op, x).is_ok();
                                ensure!(ok == (n <= len - p), "round {} of {:?} on a fixed buffer: {} at {}", i, pat, ok, p);
                                if ok {
                                    want[p..p + n].copy_from_slice(x);
                                    p += n;
                                }
                            }
                            ensure!(w.get_offset() == p && w.available() == len - p, "round {} of {:?} on a fixed buffer: at {}, expected {}", i, pat, w.get_offset(), p);
                        }
                    }
                }
                ensure!(mem == want, "{:?} repeated on a fixed buffer leaves other bytes", pat);
            } else {
                let mut v = vec![0xEEu8; 3];
                let mut m = Model { b: if kind == 0 { vec![] } else { v.clone() }, p: kind, initial: kind, ro: false, next: 0 };
                let mut own = VecWriter::new();
                {
                    let mut bor;
                    let w: &mut dyn Grow = if kind == 0 {
                        &mut own
                    } else {
                        bor = BorrowedVecWriter::with_offset(&mut v, 1);
                        &mut bor
                    };
                    for i in 0..rounds {
                        for op in &pat {
                            match op {
                                Op::Set(n) => {
                                    w.set(*n);
                                    m.p = (*n).min(m.b.len());
                                }
                                Op::ReadOnly(r) => {
                                    w.set_ro(*r);
                                    m.ro = *r;
                                }
                                _ => {
                                    let n = count(*op);
                                    let x = &src[i % 64..i % 64 + n];
                                    let ok = put(w, *op, x).is_ok();
                                    ensure!(ok == !m.ro, "round {} of {:?}: {} at {}", i, pat, ok, m.p);
                                    if ok {
                                        m.put(x);
                                    }
                                }
                            }
                            let (a, _) = w.data();
                            ensure!(w.off() == m.p && a.len() == m.b.len() && w.ro() == m.ro, "round {} of {:?}: at {} of {}, expected {} of {}", i, pat, w.off(), a.len(), m.p, m.b.len());
                            if let Some(n) = w.written() {
                                ensure!(n == m.p.saturating_sub(m.initial), "round {} of {:?}: {} bytes written at {}", i, pat, n, m.p);
                            }
                        }
                    }
                    ensure!(w.data().0 == &m.b[..], "{:?} repeated on a growing writer of kind {} leaves other bytes", pat, kind);
                }
                if kind == 1 {
                    ensure!(v == m.b, "{:?} repeated leaves another vector", pat);
                }
            }
            ch.ops((rounds * pat.len()) as u64);
            ch.seen((kind * 4 + pat.len()) as u64);
            Ok(())
        }));
    }
    {
        // A user writer with nothing but `write`: the default methods.
        struct One {
            out: Vec<u8>,
            room: usize,
        }
        impl Writer for One {
            fn write(&mut self, v: u8) -> Result<()> {
                if self.out.len() == self.room {
                    return Err(il2_iltags::io::ErrorKind::UnableToWriteData);
                }
                self.out.push(v);
                Ok(())
            }
            fn as_writer(&mut self) -> &mut dyn Writer {
                self
            }
        }
        spaces.push(space("default", "a user writer with only single-byte writes: slices of 0 to 600 bytes into room for 0 to 600", |ch| {
            let n = ch.choose(601);
            let x = crate::alpha::fill(n, 2);
            for room in [0usize, 1, 2, 255, 256, 257, 511, 512, 513, 600] {
                let mut w = One { out: vec![], room };
                let r = w.as_writer().write_all(&x);
                ensure!(r.is_ok() == (n <= room) && w.out == x[..n.min(room)], "{} bytes into room for {}: {:?}, {} written", n, room, r, w.out.len());
                ch.op();
            }
            Ok(())
        }));
    }
    {
        // What a writer produced is what a reader gives back.
        spaces.push(space("loop", "bytes written at every split by every writer and read at every split by every reader, 0 to 6 bytes", |ch| {
            let n = ch.choose(7);
            let x = crate::alpha::fill(n, 4);
            let a = ch.choose(n + 1);
            let k = ch.choose(crate::env::N_WRITERS);
            let (_, out) = crate::env::with_writer(k, n, |w| {
                let _ = w.write_all(&x[..a]);
                for v in &x[a..] {
                    let _ = w.write(*v);
                }
            });
            ensure!(out == x, "{:?} written in two parts by {} gives {:?}", x, crate::env::writer_name(k), out);
            let c = ch.choose(n + 1);
            for r in 0..crate::env::N_READERS {
                let (got, used) = crate::env::with_reader(r, &out, |r: &mut dyn Reader| {
                    let mut v = vec![0; c];
                    let mut ok = r.read_all(&mut v).is_ok();
                    for _ in c..n {
                        match r.read() {
                            Ok(y) => v.push(y),
                            Err(_) => ok = false,
                        }
                    }
                    (ok, v, r.read().is_ok())
                });
                ensure!(got == (true, x.clone(), false) && used == n, "{:?} read in two parts by {}: {:?}, {} used", x, crate::env::reader_name(r), got, used);
                ch.op();
            }
            Ok(())
        }));
    }
    Prop { id: "C20", spaces, assumptions: vec![] }
}
