//! Values of more than 2^24 bytes: lengths whose size field takes four and five bytes,
//! counters that need more than 24 bits, blocks of megabytes.
use super::docs::*;
use crate::alpha::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use il2_iltags::io::array::*;
use il2_iltags::io::{LimitedReader, ReadReader, Reader, WriteWriter, Writer};
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::sync::Arc;

pub fn lens(tier: Tier) -> Vec<usize> {
    let mut v = vec![(1 << 22) + 248, (1 << 24) - 1, (1 << 24) + 247, (1 << 24) + 248];
    if tier == Tier::Thorough {
        v.extend([(1 << 21) + 1, (1 << 22) - 1, 1 << 24, (1 << 24) + 249, (1 << 25) + 3, 1 << 23, 10_000_000, (1 << 24) + 1, 20_000_000, (1 << 25) - 1, 1 << 26, (1 << 26) + 5, 100_000_000, (1 << 27) + 1]);
        v.sort_unstable();
    }
    v
}
pub const N_HUGE: usize = 10;
pub fn huge(kind: usize, n: usize) -> T {
    let odd = |k: usize| -> String {
        // Every boundary of blocks of a power of two falls inside a character.
        let mut s = String::with_capacity(k + 4);
        s.push('a');
        while s.len() + 2 <= k {
            s.push('\u{e9}');
        }
        while s.len() < k {
            s.push('z');
        }
        s
    };
    match kind {
        0 => raw(1234, &fill(n, 5)),
        1 => t(V::Bytes(fill(n, 6))),
        2 => t(V::Str(odd(n))),
        3 => t(V::BigInt(fill(n, 7))),
        4 => t(V::BigDec(-5, fill(n, 8))),
        5 => t(V::Arr(vec![t(V::U8(1)), raw(99, &fill(n, 9)), t(V::Null)])),
        6 => t(V::Seq(vec![raw(99, &fill(n / 2, 9)), t(V::Bytes(fill(n - n / 2, 3)))])),
        7 => dict(&[("a", t(V::Bytes(fill(n, 4)))), ("b", t(V::U8(3)))]),
        8 => sdict(&[("k", &odd(n)), (&odd(n / 3), "")]),
        _ => t(V::Arr(vec![t(V::Seq(vec![t(V::Arr(vec![raw(99, &fill(n, 1))]))]))])),
    }
}
fn spots(n: usize) -> Vec<usize> {
    let mut v = vec![0, n - 1, n - 2, 1 << 20, 1 << 23, 1 << 24];
    v.retain(|x| *x < n);
    v.sort_unstable();
    v.dedup();
    v
}
/// For C06, C07 and C24.
pub fn trees(tier: Tier, c: TreeCheck) -> Space {
    let z = lens(tier);
    space("megabytes", format!("{} kinds x {} lengths up to {}", N_HUGE, z.len(), z[z.len() - 1]), move |ch| {
        let n = *ch.pick(&z);
        c(ch, &huge(ch.choose(N_HUGE), n))
    })
}
/// For C10, C16, C17 and C22: reading on every reader, whole, cut short, failing, as an
/// existing tag, followed by others; and scanning the same bytes.
pub fn reading(tier: Tier, what: &'static str) -> Space {
    let z = lens(tier);
    let fac = Arc::new(ILStandardTagFactory::new(false));
    space("megabytes", format!("{} kinds x {} lengths up to {}, between other tags, on {} kinds of reader", N_HUGE, z.len(), z[z.len() - 1], N_READERS), move |ch| {
        let n = *ch.pick(&z);
        let kind = ch.choose(N_HUGE);
        let x = huge(kind, n);
        let one = enc(&x);
        let b = [&[3, 7][..], &one, &[2, 9]].concat();
        let name = |k: usize| format!("kind {} of {} bytes from {}", kind, n, reader_name(k));
        let f = &*fac;
        // Not byte by byte where there is nothing to find twice.
        let ks: Vec<usize> = (0..N_READERS).filter(|k| kind < 2 || !(*k == 2 || *k == 5 || *k == 6 || *k == 8 || *k == 12)).collect();
        let whole = |r: &mut dyn Reader| -> std::result::Result<(Box<dyn ILTag>, usize), String> {
            let mut go = || -> Result<(u64, Box<dyn ILTag>, u64)> { Ok((f.deserialize(r)?.id(), f.deserialize(r)?, f.deserialize(r)?.id())) };
            match go() {
                Ok((3, t, 2)) => Ok((t, 0)),
                Ok((p, _, q)) => Err(format!("tags {} and {} around", p, q)),
                Err(e) => Err(format!("{:?}", e)),
            }
        };
        for &k in &ks {
            if what == "scan" {
                let (r, used) = super::scan::with(k, &b, |r| -> std::result::Result<(), String> {
                    let mut s = RawTagScanner::new(r);
                    let mut at = 0;
                    for (id, size) in [(3, 2), (x.id, one.len() as u64), (2, 2)] {
                        let e = s.next_tag().map_err(|e| format!("{:?}", e))?.ok_or("no tag")?;
                        ensure_eq!((e.id(), e.offset(), e.size(), e.next_tag_offset()), (id, at, size, at + size), "entry");
                        at += size;
                    }
                    Ok(())
                });
                r.map_err(|e| format!("scanning {}: {}", name(k), e))?;
                ensure_eq!(used, b.len(), "scanning {}: bytes taken", name(k));
            } else {
                let (r, used) = with_reader(k, &b, whole);
                let (t, _) = r.map_err(|e| format!("{}: {}", name(k), e))?;
                ensure!(extract(t.as_ref())? == x, "{}: another value", name(k));
                ensure_eq!(used, b.len(), "{}: bytes taken", name(k));
            }
            ch.op();
            ch.visit(1);
        }
        if what == "scan" {
            let mut r = ByteArrayReader::new(&one);
            r.set_offset(one.len());
            return Ok(());
        }
        for cut in spots(one.len()) {
            for k in [0, 3, 4, 7, 11] {
                let (r, _) = with_reader(k, &one[..cut], |r| f.deserialize(r).is_ok());
                ensure!(!r, "{} cut to {} decodes", name(k), cut);
            }
            ch.ops(5);
        }
        if what == "faults" {
            for style in [1, 2] {
                let mut r = FaultReader::new(&one, usize::MAX, 0, style);
                f.deserialize(&mut r).map_err(|e| format!("{}: {:?}", name(2), e))?;
                let ops = r.ops;
                for at in [0, ops / 2, ops - 1] {
                    let mut r = FaultReader::new(&one, at, 0, style);
                    match f.deserialize(&mut r) {
                        Err(ErrorKind::IOError(e)) if is_fault(&e, 0, at as u64) => {}
                        Err(e) => return Err(format!("kind {} of {} bytes: read {} failed, reported as {:?}", kind, n, at, e)),
                        Ok(_) => return Err(format!("kind {} of {} bytes is read although read {} of {} failed", kind, n, at, ops)),
                    }
                    ensure!(r.after == 0, "kind {} of {} bytes: reads after the failure", kind, n);
                    ch.op();
                }
            }
            // A stream that fails in the middle of the value.
            struct Broken<'a>(&'a [u8]);
            impl std::io::Read for Broken<'_> {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    let n = b.len().min(self.0.len()).min(1 << 20);
                    if n == 0 {
                        return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, Injected(4711)));
                    }
                    b[..n].copy_from_slice(&self.0[..n]);
                    self.0 = &self.0[n..];
                    Ok(n)
                }
            }
            for cut in spots(one.len()) {
                match f.deserialize(&mut ReadReader::new(&mut Broken(&one[..cut]))) {
                    Err(ErrorKind::IOError(e)) if is_std_fault(&e, std::io::ErrorKind::TimedOut, 4711) => {}
                    Err(e) => return Err(format!("kind {} of {} bytes: the stream fails at {}, reported as {:?}", kind, n, cut, e)),
                    Ok(_) => return Err(format!("kind {} of {} bytes is read although the stream fails at {}", kind, n, cut)),
                }
                ch.op();
            }
        }
        if what == "sources" {
            for step in [4096, 65_536, 65_537, 1 << 20, (1 << 24) - 1, 1 << 24] {
                for interrupt_every in [0, 2] {
                    let mut s = StepRead { b: &b, p: 0, step, interrupt_every, calls: 0 };
                    let r = whole(&mut ReadReader::new(&mut s));
                    let (t, _) = r.map_err(|e| format!("kind {} of {} bytes, {} a call: {}", kind, n, step, e))?;
                    ensure!(extract(t.as_ref())? == x && s.p == b.len(), "kind {} of {} bytes, {} a call: {} bytes taken or another value", kind, n, step, s.p);
                    ch.op();
                }
            }
        }
        ch.seen((kind * 100) as u64 + n as u64 * 10_000);
        Ok(())
    })
}
/// C18.
pub fn writing(tier: Tier) -> Space {
    let z = lens(tier);
    space("megabytes", format!("{} kinds x {} lengths up to {} on {} kinds of writer; the last write failing, buffers too small by one byte or much", N_HUGE, z.len(), z[z.len() - 1], N_WRITERS), move |ch| {
        let n = *ch.pick(&z);
        let kind = ch.choose(N_HUGE);
        let x = huge(kind, n);
        let b = enc(&x);
        let tag = build(&x);
        for k in 0..N_WRITERS {
            if kind >= 2 && ![0, 1, 2, 4, 5].contains(&k) {
                continue;
            }
            let (r, out) = with_writer(k, b.len(), |w| tag.serialize(w));
            ensure!(r.is_ok() && out == b, "kind {} of {} bytes to {}: {:?}, {} bytes of {}, equal {}", kind, n, writer_name(k), r, out.len(), b.len(), out == b);
            ch.op();
            ch.visit(1);
        }
        for cap in spots(b.len()) {
            let mut buf = vec![0xEE; cap];
            let (r, m) = {
                let mut w = ByteArrayWriter::new(&mut buf);
                (tag.serialize(&mut w), w.get_offset())
            };
            ensure!(r.is_err() && m <= cap && b.starts_with(&buf[..m]), "kind {} of {} bytes in {}: {:?}, {} written", kind, n, cap, r, m);
            let mut s = &mut buf[..];
            ensure!(tag.serialize(&mut WriteWriter::new(&mut s)).is_err(), "kind {} of {} bytes is written in a slice of {}", kind, n, cap);
            ch.ops(2);
        }
        let mut w = FaultWriter::new(usize::MAX, 0, false);
        tag.serialize(&mut w).map_err(|e| format!("{:?}", e))?;
        for at in [0, w.ops / 2, w.ops - 1] {
            let mut w = FaultWriter::new(at, 0, false);
            ensure!(tag.serialize(&mut w).is_err() && w.after == 0 && b.starts_with(&w.out), "kind {} of {} bytes: write {} fails: success, more writes, or no prefix", kind, n, at);
        }
        ch.seen((kind * 100) as u64 + n as u64 * 10_000);
        Ok(())
    })
}
/// C08: lengths one off, outside and inside; C05: texts malformed far in.
pub fn grammar(tier: Tier) -> Space {
    let z = lens(tier);
    let fac = Arc::new(ILStandardTagFactory::new(false));
    space("megabytes", format!("{} kinds x {} lengths up to {}: the length off by one, one byte missing, texts malformed at up to 6 places", N_HUGE, z.len(), z[z.len() - 1]), move |ch| {
        let n = *ch.pick(&z);
        let kind = ch.choose(N_HUGE);
        let x = huge(kind, n);
        let v = enc_value(&x.v);
        let check = |b: &[u8], how: &str| -> R {
            let want = dec(b, false);
            match (fac.from_bytes(b), want) {
                (Ok(t), Ok((y, used))) if used == b.len() => ensure!(extract(t.as_ref())? == y, "kind {} of {} bytes, {}: another value", kind, n, how),
                (Err(_), Ok((_, used))) if used < b.len() => {}
                (Err(_), Err(_)) => {}
                (r, w) => return Err(format!("kind {} of {} bytes, {}: decoded {}, expected {}", kind, n, how, r.is_ok(), w.is_ok())),
            }
            ch.op();
            Ok(())
        };
        for d in [-1i64, 0, 1] {
            let mut b = ilint(x.id);
            b.extend(ilint((v.len() as i64 + d) as u64));
            b.extend(&v);
            check(&b, &format!("length off by {}", d))?;
            b.push(0);
            check(&b, &format!("length off by {} and a byte more", d))?;
            b.truncate(b.len() - 2);
            check(&b, &format!("length off by {} and a byte less", d))?;
        }
        // The inner length of the containers.
        if (5..9).contains(&kind) {
            let h = ilint(n as u64);
            for (p, _) in v[..64.min(v.len())].windows(h.len()).enumerate().filter(|(_, w)| **w == h[..]) {
                for d in [-1i64, 1] {
                    let g = ilint((n as i64 + d) as u64);
                    if g.len() == h.len() {
                        let mut u = v.clone();
                        u[p..p + g.len()].copy_from_slice(&g);
                        check(&frame(x.id, &u), &format!("inner length off by {}", d))?;
                    }
                }
            }
        }
        if kind == 2 {
            for at in spots(n) {
                for bad in [0xFFu8, 0x61] {
                    let mut u = v.clone();
                    u[at] = bad;
                    let b = frame(x.id, &u);
                    ensure_eq!(fac.from_bytes(&b).is_ok(), std::str::from_utf8(&u).is_ok(), "text of {} bytes with {:02x} at {}", n, bad, at);
                    ch.op();
                }
            }
        }
        ch.visit(10);
        ch.seen((kind * 100) as u64 + n as u64 * 10_000);
        Ok(())
    })
}
/// C05: reading and writing text itself.
pub fn texts(tier: Tier) -> Space {
    use il2_iltags::io::data::*;
    let z = lens(tier);
    space("megabytes", format!("texts of {} lengths up to {}, malformed at up to 6 places, on {} readers", z.len(), z[z.len() - 1], N_READERS), move |ch| {
        let n = *ch.pick(&z);
        let k = ch.choose(N_READERS);
        let V::Str(text) = huge(2, n).v else { return Err("harness".into()) };
        let b = text.as_bytes();
        if k < N_WRITERS {
            let (r, out) = with_writer(k, n, |w| write_string(&text, w));
            ensure!(r.is_ok() && out == b, "text of {} bytes to {}", n, writer_name(k));
        }
        let (r, used) = with_reader(k, b, |r| read_string(r, n));
        ensure!(matches!(r, Ok(ref s) if *s == text) && used == n, "text of {} bytes from {}: another text", n, reader_name(k));
        if ![0, 1, 3, 4, 7].contains(&k) {
            return Ok(());
        }
        for at in spots(n) {
            for bad in [0xFFu8, 0x41] {
                let mut u = b.to_vec();
                u[at] = bad;
                let (r, _) = with_reader(k, &u, |r| read_string(r, n));
                match (r, std::str::from_utf8(&u)) {
                    (Ok(s), Ok(w)) if s == w => {}
                    (Err(_), Err(_)) => {}
                    (r, w) => return Err(format!("text of {} bytes with {:02x} at {}: accepted {}, should be {}", n, bad, at, r.is_ok(), w.is_ok())),
                }
                ch.op();
            }
            ch.visit(4);
        }
        ch.seen(n as u64 * 100 + k as u64);
        Ok(())
    })
}
/// C13: into tags holding something else.
pub fn into(tier: Tier) -> Space {
    let z = lens(tier);
    let fac = Arc::new(ILStandardTagFactory::new(false));
    space("megabytes", format!("{} kinds x {} lengths up to {} decoded into small ones, and the other way", N_HUGE, z.len(), z[z.len() - 1]), move |ch| {
        let n = *ch.pick(&z);
        let kind = ch.choose(N_HUGE);
        let (x, y) = (huge(kind, n), huge(kind, 300 + kind));
        let z = huge(kind, n - 1000);
        let (b, s, m) = (enc(&x), enc(&y), enc(&z));
        let mut tag = build(&y);
        for (b, w) in [(&b, &x), (&m, &z), (&b, &x), (&s, &y), (&m, &z)] {
            let mut r = ByteArrayReader::new(b);
            fac.deserialize_into(&mut r, tag.as_mut()).map_err(|e| format!("kind {} of {} bytes: {:?}", kind, b.len(), e))?;
            ensure!(extract(tag.as_ref())? == *w && r.available() == 0, "kind {} of {} bytes decoded into an existing tag: another value", kind, b.len());
            ensure!(tag.to_bytes().map(|o| o == *b).unwrap_or(false), "kind {} of {} bytes decoded into an existing tag: other bytes", kind, b.len());
            ch.op();
        }
        ch.visit(4);
        ch.seen((kind * 100) as u64 + n as u64 * 10_000);
        Ok(())
    })
}
/// C24: differing in one place far in, the rest being the same.
pub fn equality(tier: Tier) -> Space {
    let z = lens(tier);
    space("megabytes_near", format!("raw, text, array and dictionary tags of {} lengths up to {}, differing in one byte at up to 6 places or in length", z.len(), z[z.len() - 1]), move |ch| {
        let n = *ch.pick(&z);
        let kind = *ch.pick(&[0usize, 1, 2, 5, 7]);
        let x = huge(kind, n);
        let tag = build(&x);
        let b = enc(&x);
        let same = |y: &dyn ILTag| (iltag_are_equal(tag.as_ref(), y), iltag_are_equal(y, tag.as_ref()));
        ensure_eq!(same(build(&x).as_ref()), (true, true), "kind {} of {} bytes and its twin", kind, n);
        ensure_eq!(same(build(&huge(kind, n - 1)).as_ref()), (false, false), "kind {} of {} bytes and one byte less", kind, n);
        // The same identifier as a raw tag whose value differs in one place.
        let v = enc_value(&x.v);
        let lead = b.len() - v.len();
        ensure_eq!(same(&ILRawTag::with_value(x.id, &v)), (true, true), "kind {} of {} bytes and the same as a raw tag", kind, n);
        for at in spots(b.len()) {
            if at < lead {
                continue;
            }
            let mut u = v.clone();
            u[at - lead] ^= 0x40;
            ensure_eq!(same(&ILRawTag::with_value(x.id, &u)), (false, false), "kind {} of {} bytes and one differing at {}", kind, n, at);
            ch.op();
            ch.visit(1);
        }
        ch.seen((kind * 100) as u64 + n as u64 * 10_000);
        Ok(())
    })
}
/// C19, C20 and C21: cursors far into a large buffer.
pub fn cursors(tier: Tier, which: usize) -> Space {
    let z = lens(tier);
    let what = ["readers", "writers", "streams"][which];
    space("megabytes", format!("{}: {} lengths up to {}: one long operation, then short ones around every end", what, z.len(), z[z.len() - 1]), move |ch| {
        let n = *ch.pick(&z);
        let b = fill(n + 4, 3);
        let far = |r: &mut dyn Reader, how: usize, name: &str| -> R {
            let mut got = vec![0; n];
            let ok = match how {
                0 => r.read_all(&mut got).is_ok() && got == b[..n],
                1 => r.skip(n).is_ok(),
                2 => r.skip_u64(n as u64).is_ok(),
                _ => r.skip(n / 2).is_ok() && r.read_all(&mut got[..n - n / 2]).is_ok() && got[..n - n / 2] == b[n / 2..n],
            };
            ensure!(ok, "{}: {} bytes by way {}", name, n, how);
            ensure!(r.skip(5).is_err() || which == 2, "{}: 5 bytes skipped where 4 are left", name);
            if which != 2 {
                ensure!(r.read_all(&mut [0; 5]).is_err(), "{}: 5 bytes read where 4 are left", name);
                let mut last = [0; 4];
                ensure!(r.read_all(&mut last).is_ok() && last == b[n..], "{}: the last 4 bytes after {}", name, n);
                ensure!(r.read().is_err(), "{}: a byte beyond the end", name);
            }
            Ok(())
        };
        match which {
            0 => {
                let how = ch.choose(4);
                far(&mut ByteArrayReader::new(&b), how, "ByteArrayReader")?;
                far(&mut VecReader::new(&b), how, "VecReader")?;
                far(&mut LimitedReader::new(&mut ByteArrayReader::new(&[&b[..], &[1; 9]].concat()), n + 4), how, "LimitedReader")?;
                let more = [&b[..], &[1; 9]].concat();
                let mut r = ByteArrayReader::new(&more);
                let mut l = LimitedReader::new(&mut r, n + 4);
                l.skip(2).map_err(|e| format!("{:?}", e))?;
                l.goto_end().map_err(|e| format!("{:?}", e))?;
                ensure!(l.empty() && r.offset() == n + 4, "goto_end over {} bytes: at {}", n + 2, r.offset());
                for k in [n, n - 1, 1 << 20, 5] {
                    r.set_offset(k);
                    ensure!(r.offset() == k && r.available() == more.len() - k && r.read().ok() == Some(more[k]), "set_offset({})", k);
                }
                r.set_offset(usize::MAX);
                ensure_eq!(r.offset(), more.len(), "offset set beyond the end");
            }
            1 => {
                let at = *ch.pick(&[0usize, 1, 100, 1 << 16, 1 << 20]);
                let old = fill(at + n / 2, 9);
                let mut want = old.clone();
                want.truncate(at);
                want.extend(&b);
                let mut w = VecWriter::new();
                let mut v = old.clone();
                let mut a = [&old[..], &vec![0; n]].concat();
                let full = a.len();
                let r = (|| -> il2_iltags::io::Result<(usize, usize, usize)> {
                    w.write_all(&old)?;
                    w.set_offset(at);
                    w.write_all(&b)?;
                    let mut bw = BorrowedVecWriter::with_offset(&mut v, at);
                    bw.write_all(&b)?;
                    let written = bw.bytes_written();
                    let mut aw = ByteArrayWriter::new(&mut a);
                    aw.set_offset(at);
                    aw.write_all(&b)?;
                    Ok((w.get_offset(), written, aw.get_offset()))
                })();
                ensure!(matches!(r, Ok((p, q, s)) if (p, q, s) == (at + n + 4, n + 4, at + n + 4)), "{} bytes written at {}: {:?}", n + 4, at, r);
                ensure!(w.as_slice() == want && v == want, "{} bytes written at {}: other contents", n + 4, at);
                ensure!(a[..want.len().min(full)] == want[..] && a.len() == full, "{} bytes written at {} of a slice: other contents", n + 4, at);
                let mut small = vec![7; n];
                let mut aw = ByteArrayWriter::new(&mut small);
                ensure!(aw.write_all(&b).is_err() && aw.get_offset() == 0, "{} bytes written in {}", n + 4, n);
                ensure!(small.iter().all(|x| *x == 7), "a refused write changes the slice");
            }
            _ => {
                use il2_iltags::io::std_io::SizedSeek;
                let how = ch.choose(4);
                let mut c = std::io::Cursor::new(&b[..]);
                far(&mut c, how, "Cursor")?;
                let p = std::io::Seek::stream_position(&mut c).map_err(|_| "harness")?;
                let left = SizedSeek::available(&mut c).map_err(|e| format!("{:?}", e))?;
                ensure!(SizedSeek::len(&mut c).ok() == Some(n as u64 + 4) && p + left == n as u64 + 4 && p >= n as u64, "Cursor after {} bytes: at {}, {} left", n, p, left);
                let mut s = &b[..];
                let mut r = ReadReader::new(&mut s);
                let mut got = vec![0; n];
                let ok = match how {
                    0 => r.read_all(&mut got).is_ok() && got == b[..n],
                    1 => r.skip(n).is_ok(),
                    2 => r.skip_u64(n as u64).is_ok(),
                    _ => r.skip(n / 2).is_ok() && r.skip(n - n / 2).is_ok(),
                };
                let mut last = [0; 4];
                ensure!(ok && r.read_all(&mut last).is_ok() && last == b[n..] && r.read().is_err(), "ReadReader: {} bytes by way {}", n, how);
                let mut c = std::io::Cursor::new(vec![]);
                ensure!(Writer::write_all(&mut c, &b).is_ok() && Writer::write(&mut c, 5).is_ok(), "writing {} bytes", n + 4);
                ensure!(c.position() == n as u64 + 5 && c.get_ref()[..n + 4] == b[..], "writing {} bytes: other contents", n + 4);
            }
        }
        ch.ops(8);
        ch.visit(3);
        ch.seen(n as u64);
        Ok(())
    })
}

/// More elements than a 16-bit or 24-bit count holds. The documents are made and
/// compared byte for byte, without a model of each element. For C06 and C07.
pub fn counts(tier: Tier) -> Space {
    let mut z = vec![65_534usize, 65_535, 65_536, 65_537, 66_000, (1 << 24) + 3];
    if tier == Tier::Thorough {
        z.extend([65_783, 65_784, 70_000, 131_071, 131_072, 200_000, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 248]);
    }
    space("many", format!("arrays and sequences of tags, arrays of ILInt and both dictionaries of {} numbers of entries up to {}: read, counted, measured and written back", z.len(), (1 << 24) + 3), move |ch| {
        let kind = ch.choose(5);
        let n = *ch.pick(&z);
        if kind >= 3 && n > 300_000 {
            return Ok(());
        }
        let mut v: Vec<u8> = if kind == 1 { vec![] } else { ilint(n as u64) };
        let head = v.len();
        match kind {
            0 | 1 => v.resize(head + n, 0),
            2 => v.extend((0..n).map(|i| (i % 248) as u8)),
            3 => (0..n).for_each(|i| v.extend(frame(17, format!("{:07}", i).as_bytes()).into_iter().chain([0]))),
            _ => (0..n).for_each(|i| v.extend(frame(17, format!("{:07}", i).as_bytes()).into_iter().chain([17, 1, (i % 100) as u8]))),
        }
        let b = frame([21, 22, 20, 30, 31][kind], &v);
        ch.ops(n as u64);
        let what = || format!("{} of {} entries", ["array", "sequence", "ILInt array", "dictionary", "string dictionary"][kind], n);
        let f = ILStandardTagFactory::new(n % 2 == 0);
        let d = f.from_bytes(&b).map_err(|e| format!("{}: {:?}", what(), e))?;
        let x = d.as_ref();
        use il2_iltags::tags::standard::*;
        let got = match kind {
            0 => tag_downcast_ref::<ILTagArrayTag>(x).map(|x| x.value().len()),
            1 => tag_downcast_ref::<ILTagSeqTag>(x).map(|x| x.value().len()),
            2 => tag_downcast_ref::<ILILIntArrayTag>(x).map(|x| x.value().len()),
            3 => tag_downcast_ref::<ILDictTag>(x).map(|x| x.len()),
            _ => tag_downcast_ref::<ILStrDictTag>(x).map(|x| x.len()),
        };
        ensure_eq!(got, Some(n), "entries read from {}", what());
        ensure_eq!((d.value_size(), d.size()), (v.len() as u64, b.len() as u64), "sizes of {}", what());
        ensure!(d.to_bytes().map_err(|e| format!("{}: {:?}", what(), e))? == b, "{} is written back differently", what());
        ch.seen((kind * 100_000_000 + n) as u64);
        Ok(())
    })
}
