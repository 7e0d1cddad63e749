//! C23: raw scanning of arbitrary data is safe and terminates.
use super::dec::*;
use super::docs::*;
use super::scan::*;
use crate::alpha::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::{LimitedReader, ReadReader, Reader};
use il2_iltags::tags::raw::*;
use il2_iltags::tags::ErrorKind;
use std::sync::Arc;

/// Scans to the first error (and a little beyond it), asking `ids` in turn (None:
/// any). Returns the number of entries and where they end.
fn run<T: Reader>(b: &[u8], r: &mut T, ids: &[Option<u64>]) -> Result<(u64, u64), String> {
    let mut s = RawTagScanner::new(r);
    let mut p = 0usize;
    let mut n = 0u64;
    loop {
        let asked = if ids.is_empty() { None } else { ids[n as usize % ids.len()] };
        let o = match asked {
            None => s.next_tag(),
            Some(id) => s.next_tag_if_id(id),
        };
        match (next(b, p), o) {
            (Next::Tag(l), Ok(Some(e))) | (Next::Either(l), Ok(Some(e))) => {
                if asked.map(|i| i != l.id).unwrap_or(false) {
                    return Err(format!("{}: asked for {:?} at {}, got {:?}", hex(b), asked, p, e));
                }
                same(&e, &l, Some(b)).map_err(|m| format!("{} at {}: {}", hex(b), p, m))?;
                p = l.end() as usize;
            }
            (Next::Tag(l), Err(ErrorKind::UnexpectedTagType)) if asked.map(|i| i != l.id).unwrap_or(false) => p = l.end() as usize,
            (Next::Either(l), Err(ErrorKind::UnexpectedTagType)) if asked.map(|i| i != l.id).unwrap_or(false) => p = l.end() as usize,
            (Next::Either(_), Err(_)) | (Next::Either(_), Ok(None)) => break,
            (Next::Bad, Err(_)) | (Next::Bad, Ok(None)) => break,
            (Next::Bad, Ok(Some(e))) => return Err(format!("{}: {:?} reported at {}, where no complete tag is", hex(b), e, p)),
            (Next::Tag(l), o) => return Err(format!("{} at {}: {:?}, expected {:?}", hex(b), p, o, l)),
        }
        n += 1;
        if n > b.len() as u64 {
            return Err(format!("{}: more entries than bytes", hex(b)));
        }
    }
    // After an error the position is open, but it stays safe.
    for _ in 0..2 {
        let _ = s.next_tag();
        let _ = s.next_tag_if_id(0);
    }
    Ok((n, p as u64))
}
fn all(ch: &Ch, b: &[u8]) -> R {
    let a = run(b, &mut ByteArrayReader::new(b), &[])?;
    for k in 1..N_READERS {
        let (r, _) = with(k, b, |d| run(b, d, &[]));
        let r = r.map_err(|m| format!("{}: {}", reader_name(k), m))?;
        ensure_eq!(r, a, "{}: entries and end of {}", reader_name(k), hex(b));
    }
    ch.ops(N_READERS as u64);
    ch.seen(a.0 << 32 | a.1);
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    spaces.push(space("bytes3", "every byte sequence of up to 3 bytes, from memory", |ch| {
        let n = ch.choose(4);
        if n == 0 {
            return run(&[], &mut ByteArrayReader::new(&[]), &[]).map(|_| ());
        }
        let a = ch.choose(256) as u8;
        let mut b = vec![a];
        b.resize(n, 0);
        let mut k = 0u64;
        let mut h = 0u64;
        loop {
            let r = run(&b, &mut ByteArrayReader::new(&b), &[])?;
            h = h.wrapping_mul(31).wrapping_add(r.0 << 8 | r.1);
            k += 1;
            let mut i = 1;
            while i < n {
                b[i] = b[i].wrapping_add(1);
                if b[i] != 0 {
                    break;
                }
                i += 1;
            }
            if i >= n {
                break;
            }
        }
        ch.seen(h);
        ch.visit(k - 1);
        ch.ops(k);
        Ok(())
    }));
    spaces.push(space("bytes2", format!("every byte sequence of up to 2 bytes followed by 0, 1, 5 and 40 others, on {} kinds of reader", N_READERS), |ch| {
        let n = ch.choose(3);
        let mut b = vec![];
        if n == 2 {
            b.push(ch.choose(256) as u8);
        }
        for x in 0..=255u8 {
            let mut c = b.clone();
            if n > 0 {
                c.push(x);
            }
            for t in [0usize, 1, 5, 40] {
                let d = [&c[..], &fill(t, 3)].concat();
                all(ch, &d)?;
            }
            if n == 0 {
                break;
            }
        }
        ch.visit(1023);
        Ok(())
    }));
    {
        let n = if th { 6 } else { 5 };
        spaces.push(space("strings", format!("every byte sequence of up to {} of {} symbols, from memory and streams", n, SYM.len()), move |ch| {
            let len = ch.choose(n);
            let mut b = vec![];
            for _ in 0..len {
                b.push(*ch.pick(&SYM));
            }
            // The last symbol is enumerated here.
            for x in SYM {
                let mut c = b.clone();
                c.push(x);
                let a = run(&c, &mut ByteArrayReader::new(&c), &[])?;
                let mut s = &c[..];
                let r = run(&c, &mut ReadReader::new(&mut s), &[])?;
                ensure_eq!(r, a, "entries and end of {} from a stream", hex(&c));
                let r = run(&c, &mut std::io::Cursor::new(&c[..]), &[])?;
                ensure_eq!(r, a, "entries and end of {} from a cursor", hex(&c));
                ch.ops(3);
                ch.seen(a.0 << 32 | a.1);
            }
            ch.visit(SYM.len() as u64 - 1);
            Ok(())
        }));
    }
    {
        // One small tag in front, so that offsets are not zero.
        let mut sizes = u64_edges();
        sizes.extend([10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]);
        for w in 1..40u64 {
            sizes.push(u64::MAX - w);
            sizes.push((1 << 63) + w);
            sizes.push((1 << 63) - w);
        }
        sizes.sort();
        sizes.dedup();
        let ids = [16u64, 17, 21, 22, 30, 32, 0x1F8, 0x100F8, 1 << 40, u64::MAX];
        let tails: Vec<usize> = if th { (0..40).collect() } else { vec![0, 1, 2, 7, 8, 9, 10, 11, 12, 20] };
        spaces.push(space("sizes", format!("{} identifiers x {} size fields up to 2^64-1 (every width) x {} lengths of data x 0 to 2 tags before x {} kinds of reader", ids.len(), sizes.len(), tails.len(), N_READERS), move |ch| {
            let v = *ch.pick(&sizes);
            let id = *ch.pick(&ids);
            let before: &[u8] = *ch.pick(&[&[][..], &[0], &[3, 1, 2, 2]]);
            let mut n = 0;
            for f in std::iter::once(ilint(v)).chain(wide_forms(v)) {
                for t in &tails {
                    let b = [before, &ilint(id), &f, &fill(*t, 1)].concat();
                    all(ch, &b)?;
                    n += 1;
                }
            }
            ch.visit(n - 1);
            Ok(())
        }));
    }
    {
        let z = crate::props::docs::sizes(if th { 300_000 } else { 70_000 });
        spaces.push(space("large", format!("{} lengths up to {} of raw, text and array tags after another tag, the data ending around every power of two, on {} kinds of reader", z.len(), z[z.len() - 1], N_READERS), move |ch| {
            let n = *ch.pick(&z);
            let x = sized(*ch.pick(&[1usize, 4, 9]), n);
            let b = [vec![3, 9], enc(&x), vec![0, 1, 1]].concat();
            all(ch, &b)?;
            for at in places(b.len()) {
                all(ch, &b[..at])?;
                ch.visit(1);
            }
            Ok(())
        }));
        let z = super::huge::lens(tier);
        spaces.push(space("megabytes", format!("raw, text and array tags of {} lengths up to {} between others, complete and cut at up to 20 places, asked for with the right and other identifiers, on 4 kinds of reader", z.len(), z[z.len() - 1]), move |ch| {
            let n = *ch.pick(&z);
            let x = super::huge::huge(*ch.pick(&[0usize, 2, 5]), n);
            let b = [vec![3, 9], enc(&x), vec![0, 1, 1]].concat();
            let asks: [&[Option<u64>]; 7] = [&[], &[Some(x.id)], &[Some(0)], &[Some(3), Some(x.id), Some(0), Some(1)], &[None, Some(x.id ^ 1)], &[None, Some(x.id | 1 << 32)], &[Some(3), None, Some(1)]];
            let mut cuts = vec![b.len(), b.len() - 1, b.len() - 2, b.len() - 3, b.len() - 4, 2, 4, 9, 100];
            cuts.extend([1 << 20, 1 << 22, 1 << 23, 1 << 24, b.len() / 2].into_iter().filter(|c| *c < b.len()));
            for cut in cuts {
                let b = &b[..cut];
                for ids in asks {
                    let a = run(b, &mut ByteArrayReader::new(b), ids)?;
                    for k in [3, 4, 7] {
                        let (r, _) = with(k, b, |d| run(b, d, ids));
                        ensure_eq!(r.map_err(|m| format!("{}: {}", reader_name(k), m))?, a, "{}: entries and end", reader_name(k));
                    }
                    ch.ops(4);
                }
                ch.visit(7);
            }
            ch.seen(n as u64);
            Ok(())
        }));
        let mut ids = u64_edges();
        ids.extend(crate::alpha::id_aliases());
        ids.extend(0..40);
        ids.sort();
        ids.dedup();
        spaces.push(space("ids", format!("every pair of {} identifiers: asked for one and then the other, finding the other and then the one, with data and without", ids.len()), move |ch| {
            let a = *ch.pick(&ids);
            let body = [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16];
            let one = |id: u64| -> Vec<u8> {
                match id {
                    0..=15 => [&[id as u8][..], &body].concat(),
                    _ => enc(&raw(id, &[1, 2])),
                }
            };
            for y in &ids {
                let b = [one(a), one(*y)].concat();
                let r = run(&b, &mut ByteArrayReader::new(&b), &[Some(*y), Some(a)])?;
                ch.seen(r.0);
                run(&one(a), &mut ByteArrayReader::new(&one(a)), &[Some(*y)])?;
            }
            ch.visit(ids.len() as u64 - 1);
            ch.ops(2 * ids.len() as u64);
            Ok(())
        }));
    }
    {
        let n = if th { 24 } else { 14 };
        spaces.push(space("ilints", format!("every header byte of an ILInt as identifier, size and implicit value, with bodies of 00, 7F, FE and FF bytes of every length, followed by up to {} bytes", n), move |ch| {
            let h = ch.choose(256) as u8;
            let body = *ch.pick(&[0u8, 1, 7, 0x7F, 0x80, 0xFE, 0xFF]);
            let mut k = 0;
            for lead in [&[][..], &[10], &[14], &[16], &[0xF8, 0], &[0xFF, 0, 0, 0, 0, 0, 0, 0, 0]] {
                for len in 0..=n {
                    let mut b = lead.to_vec();
                    b.push(h);
                    b.extend(vec![body; len]);
                    all(ch, &b)?;
                    if len > 0 {
                        *b.last_mut().expect("harness: not empty") = 8;
                        all(ch, &b)?;
                        k += 1;
                    }
                    k += 1;
                }
            }
            ch.visit(k - 1);
            Ok(())
        }));
    }
    {
        let mut ds: Vec<Vec<u8>> = docs().iter().map(enc).collect();
        ds.push([enc(&t(V::Int(300))), enc(&raw(40, &[1])), enc(&t(V::U8(3))), enc(&t(s("ab")))].concat());
        spaces.push(space("damaged", format!("every single-place change of {} documents, on {} kinds of reader", ds.len(), N_READERS), move |ch| {
            let b = ch.pick(&ds);
            mutate(ch, b, &mut |b| all(ch, b))
        }));
    }
    {
        let syms = [0u8, 1, 3, 10, 16, 17, 32, 0xF8];
        let ids = Arc::new(vec![None, Some(0u64), Some(1), Some(3), Some(16), Some(248)]);
        let n = if th { 6 } else { 5 };
        spaces.push(space("asked", format!("every byte sequence of up to {} of {} symbols, asking in turn for every pair of identifiers", n, syms.len()), move |ch| {
            let len = 1 + ch.choose(n);
            let mut b = vec![];
            for _ in 0..len {
                b.push(*ch.pick(&syms));
            }
            for x in ids.iter() {
                for y in ids.iter() {
                    let a = run(&b, &mut ByteArrayReader::new(&b), &[*x, *y])?;
                    ch.seen(a.1);
                }
            }
            ch.visit(35);
            ch.ops(36);
            Ok(())
        }));
    }
    {
        let ds: Vec<Vec<u8>> = docs().iter().map(|x| [enc(&t(V::U8(1))), enc(x), enc(&raw(99, &[1]))].concat()).collect();
        spaces.push(space("limited", format!("{} sequences of three tags behind a limit of every length, and cut at every length below a limit", ds.len()), move |ch| {
            let b = ch.pick(&ds);
            let lim = ch.choose(b.len() + 3);
            // The limit cuts what could be read.
            let seen = &b[..lim.min(b.len())];
            let mut r = ByteArrayReader::new(b);
            let x = run(seen, &mut LimitedReader::new(&mut r, lim), &[])?;
            let mut r = std::io::Cursor::new(&b[..]);
            let y = run(seen, &mut LimitedReader::new(&mut r, lim), &[])?;
            ensure_eq!(x, y, "entries and end of {} limited to {}", hex(b), lim);
            // The data ends before the limit.
            for over in [1usize, 100, usize::MAX - lim] {
                let mut r = ByteArrayReader::new(seen);
                let z = run(seen, &mut LimitedReader::new(&mut r, lim.saturating_add(over)), &[])?;
                ensure_eq!(z, x, "entries and end of {} below a limit of {}", hex(seen), lim.saturating_add(over));
            }
            ch.ops(5);
            ch.seen(x.0 << 32 | x.1);
            Ok(())
        }));
    }
    {
        let ds: Vec<Vec<u8>> = docs().iter().map(enc).collect();
        spaces.push(space("faults", format!("{} documents from readers failing at every operation in {} ways: the error comes back, nothing panics", ds.len(), N_FAULTS), move |ch| {
            let b = ch.pick(&ds);
            let at = ch.choose(b.len().min(40) + 1);
            for kind in 0..N_FAULTS {
                for style in 0..3 {
                    let mut r = FaultReader::new(b, at, kind, style);
                    let mut s = RawTagScanner::new(&mut r);
                    let o = s.next_tag();
                    let e = match o {
                        Ok(Some(e)) => {
                            ensure!(!r.failed, "{}: an entry is reported although reading failed at operation {}", hex(b), at);
                            same(&e, &layout(b)[0], Some(b))?;
                            continue;
                        }
                        Ok(None) => return Err(format!("{}: no tag", hex(b))),
                        Err(e) => e,
                    };
                    ensure!(r.failed && r.after == 0, "{}: {:?} (failed {}, {} reads after it)", hex(b), e, r.failed, r.after);
                    match e {
                        ErrorKind::IOError(e) if is_fault(&e, kind, at as u64) => {}
                        e => return Err(format!("{}: {:?} for failure {} at operation {}", hex(b), e, kind, at)),
                    }
                }
            }
            ch.ops(3 * N_FAULTS as u64);
            ch.seen(at as u64);
            Ok(())
        }));
    }
    Prop { id: "C23", spaces, assumptions: vec!["after an error other than a mismatched identifier only safety is required, not the position".into(), "an implicit ILInt tag whose number exceeds 64 bits may be reported or refused".into()] }
}
