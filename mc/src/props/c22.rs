//! C22: raw scanning reports the exact layout of well-formed data.
use super::docs::*;
use super::scan::*;
use crate::alpha::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::Reader;
use il2_iltags::tags::raw::*;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::{ErrorKind, ILTagFactory};
use std::sync::Arc;

/// Scans `b` (starting behind `lead` bytes already taken from the reader) as far as
/// `stop` tags, on one kind of reader.
fn scan(ch: &Ch, k: usize, lead: usize, all: &[u8], stop: usize) -> R {
    let b = &all[lead..];
    let want = layout(b);
    let stop = stop.min(want.len());
    let (r, used) = with(k, all, |r| -> R {
        for _ in 0..lead {
            r.read().map_err(|e| format!("harness: lead {:?}", e))?;
        }
        let mut s = RawTagScanner::new(r);
        for (i, l) in want[..stop].iter().enumerate() {
            match s.next_tag() {
                Ok(Some(e)) => same(&e, l, Some(b)).map_err(|m| format!("tag {} of {}: {}", i, hex(b), m))?,
                o => return Err(format!("tag {} of {}: {:?}, expected {:?}", i, hex(b), o, l)),
            }
            ch.op();
        }
        if stop == want.len() {
            match s.next_tag() {
                Ok(Some(e)) => return Err(format!("at the end of {}: {:?}", hex(b), e)),
                Ok(None) | Err(_) => {}
            }
        }
        Ok(())
    });
    r.map_err(|m| format!("{}: {}", reader_name(k), m))?;
    if stop < want.len() {
        let end = lead as u64 + if stop == 0 { 0 } else { want[stop - 1].end() };
        ensure!(used as u64 == end, "{}: {} bytes of {} taken for {} tags, expected {}", reader_name(k), used, hex(all), stop, end);
    }
    Ok(())
}
/// The entries also agree with what the decoder reads.
fn decoder(f: &ILStandardTagFactory, b: &[u8]) -> R {
    let mut r = ByteArrayReader::new(b);
    let mut at = 0u64;
    for l in layout(b) {
        let t = f.deserialize(&mut r).map_err(|e| format!("decoding {} at {}: {:?}", hex(b), at, e))?;
        ensure_eq!((t.id(), r.offset() as u64), (l.id, l.end()), "tag decoded at {} of {}", at, hex(b));
        at = l.end();
    }
    Ok(())
}
/// All inner levels below the entry `e` (in the space of `root`), each entry mapped up
/// to the root: the chain of parents is `up`, outermost first.
fn inner(ch: &Ch, x: &T, wide: bool, root: &[u8], up: &mut Vec<RawTagOffset>, start: u64) -> R {
    let e = *up.last().expect("harness: chain");
    // Its value in the space of the root.
    let vs = (start + (e.value_offset() - e.offset())) as usize;
    let val = &root[vs..vs + e.value_size() as usize];
    let (kids, dicts): (Vec<&T>, bool) = match &x.v {
        V::Arr(a) | V::Seq(a) => (a.iter().collect(), false),
        V::Dict(m) => (m.values().collect(), true),
        _ => return Ok(()),
    };
    // A count precedes the tags of arrays and dictionaries.
    let lead = match &x.v {
        V::Seq(_) => 0,
        _ => un_ilint(val).map_err(|_| "harness: count")?.1,
    };
    let body = &val[lead..];
    let mut r = ByteArrayReader::new(body);
    let mut s = RawTagScanner::new(&mut r);
    let want = layout(body);
    ensure!(want.len() == kids.len() * (1 + dicts as usize), "harness: {} inner tags of {:?}", want.len(), x);
    for (i, l) in want.iter().enumerate() {
        let e = match s.next_tag() {
            Ok(Some(e)) => e,
            o => return Err(format!("inner tag {} of {}: {:?}", i, hex(val), o)),
        };
        same(&e, l, Some(body))?;
        // In the space of its parent's value.
        let moved = RawTagOffset::new(e.id(), e.offset() + lead as u64, e.value_offset() - e.offset(), e.value_size());
        same(&moved, &L { off: l.off + lead as u64, ..*l }, Some(val))?;
        let abs = vs as u64 + moved.offset();
        let mut m = moved;
        for p in up.iter().rev() {
            m = m.map_to_parent_space(p).map_err(|x| format!("{:?} in {:?}: {:?}", m, p, x))?;
        }
        same(&m, &L { off: abs, ..*l }, Some(root)).map_err(|x| format!("{:?} mapped through {:?}: {}", moved, up, x))?;
        ensure!(m.tag_slice(root) == e.tag_slice(body) && m.value_slice(root) == e.value_slice(body), "slices of {:?} and {:?} differ", m, e);
        ch.op();
        if dicts && i % 2 == 0 {
            continue;
        }
        let kid = kids[if dicts { i / 2 } else { i }];
        ensure!(wide || enc(kid) == e.tag_slice(body), "inner tag {} of {} is {}, expected {}", i, hex(val), hex(e.tag_slice(body)), hex(&enc(kid)));
        up.push(moved);
        inner(ch, kid, wide, root, up, abs)?;
        up.pop();
    }
    Ok(())
}
fn levels(ch: &Ch, x: &T, b: &[u8], wide: bool, before: &[u8]) -> R {
    let root = [before, b].concat();
    let mut r = ByteArrayReader::new(&root);
    let mut s = RawTagScanner::new(&mut r);
    let want = layout(&root);
    let mut last = None;
    for l in &want {
        let e = match s.next_tag() {
            Ok(Some(e)) => e,
            o => return Err(format!("{} of {}: {:?}", l.off, hex(&root), o)),
        };
        same(&e, l, Some(&root))?;
        last = Some(e);
    }
    let e = last.ok_or("harness: nothing scanned")?;
    let mut up = vec![e];
    inner(ch, x, wide, &root, &mut up, e.offset())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    spaces.push(super::huge::reading(tier, "scan"));
    let f = Arc::new(ILStandardTagFactory::new(false));
    {
        let f = f.clone();
        let mut all: Vec<T> = extremes();
        all.extend(docs());
        all.extend(big_docs());
        all.extend(wide_docs());
        all.extend([t(V::Bytes(vec![7; 70000])), raw(500, &fill(65784, 1)), raw(u64::MAX - 1, &fill(249, 2)), t(V::Str("z".repeat(600)))]);
        spaces.push(space("single", format!("{} documents behind 0, 1 and 3 bytes already read, alone and followed by another tag, on {} kinds of reader, scanned to the end and only partly", all.len(), N_READERS), move |ch| {
            let x = ch.pick(&all);
            let k = ch.choose(N_READERS);
            let b = enc(x);
            for lead in [0usize, 1, 3] {
                for tail in [&[][..], &[3, 0xFF], &[32, 0]] {
                    let all = [&[0xFF, 0xFE, 0xFD][..lead], &b, tail].concat();
                    for stop in [0, 1, 2] {
                        scan(ch, k, lead, &all, stop)?;
                    }
                }
            }
            decoder(&f, &b)?;
            ch.seen_bytes(&b);
            ch.sample(|| format!("{} -> {:?}", hex(&b), layout(&b)));
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let ds: Vec<Vec<u8>> = docs().iter().chain(big_docs().iter()).map(enc).collect();
        spaces.push(space("pairs", format!("all ordered pairs of {} documents on {} kinds of reader", ds.len(), N_READERS), move |ch| {
            let a = ch.pick(&ds);
            for b in &ds {
                let x = [&a[..], b].concat();
                for k in 0..N_READERS {
                    scan(ch, k, 0, &x, 9)?;
                }
                decoder(&f, &x)?;
                ch.seen_bytes(&x);
                ch.flush_outcome();
            }
            ch.visit(ds.len() as u64 - 1);
            Ok(())
        }));
    }
    {
        let z = sizes(if th { 1 << 20 } else { 140_000 });
        spaces.push(space("sizes", format!("{} kinds of variable length x {} lengths and counts up to {}, among other tags, every inner level, on {} kinds of reader", N_SIZED, z.len(), z[z.len() - 1], N_READERS), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 7 && n > 5000 {
                return Ok(());
            }
            let x = sized(kind, n);
            let b = [enc(&t(V::U8(1))), enc(&x), enc(&raw(0x1F8, &[1, 2])), enc(&x), vec![0]].concat();
            for k in 0..N_READERS {
                scan(ch, k, 1, &[&[0xFF], &b[..]].concat(), 9)?;
            }
            levels(ch, &x, &enc(&x), false, &[3, 9])?;
            ch.visit(N_READERS as u64);
            ch.seen((kind * 1_000_000 + n) as u64);
            Ok(())
        }));
    }
    {
        // Far more tags than any 16-bit count, in one scan.
        let ds: Vec<T> = vec![t(V::Null), t(V::U8(5)), t(V::Int(300)), t(s("abc")), t(V::Bytes(vec![])), raw(70_000, &[1, 2]), t(V::Seq(vec![t(V::U8(1))])), t(V::Bytes(vec![9; 248]))];
        let rs: Vec<usize> = if th { (0..N_READERS).collect() } else { vec![0, 2, 3, 5] };
        let k = if th { 3 } else { 2 };
        spaces.push(space("many", format!("70000 tags, every pattern of {} of {} kinds, on {} kinds of reader", k, ds.len(), rs.len()), move |ch| {
            let pat: Vec<Vec<u8>> = (0..k).map(|_| enc(ch.pick(&ds))).collect();
            let rk = *ch.pick(&rs);
            let all: Vec<u8> = (0..70_000).flat_map(|i| pat[i % k].iter().cloned()).collect();
            scan(ch, rk, 0, &all, usize::MAX).map_err(|e| e.chars().take(2000).collect::<String>())
        }));
    }
    {
        let ds: Vec<Vec<u8>> = kinds().iter().map(enc).collect();
        let n = if th { 4 } else { 3 };
        let rs: Vec<usize> = if th { vec![0, 5, 10] } else { (0..N_READERS).collect() };
        spaces.push(space("sequences", format!("every sequence of {} tags of {} kinds on {} kinds of reader", n, ds.len(), rs.len()), move |ch| {
            let mut x = vec![];
            for _ in 0..n - 1 {
                x.extend(ch.pick(&ds));
            }
            for d in &ds {
                let y = [&x[..], d].concat();
                for k in &rs {
                    scan(ch, *k, 0, &y, 9)?;
                }
            }
            ch.seen_bytes(&x);
            ch.visit(ds.len() as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let ds = wide_docs();
        let d = if th { 3 } else { 2 };
        spaces.push(
            space("wide", format!("{} documents rich in ILInts with up to {} of them longer than necessary, in every combination, followed by another tag, on {} kinds of reader and every inner level", ds.len(), d, N_READERS), move |ch| {
                let x = ch.pick(&ds);
                let b = enc_wide(ch, x);
                let y = [&b[..], &[1, 1]].concat();
                for k in 0..N_READERS {
                    scan(ch, k, 0, &y, 9)?;
                }
                decoder(&f, &y)?;
                levels(ch, x, &b, true, &[0])?;
                ch.seen_bytes(&b);
                Ok(())
            })
            .devs(d),
        );
    }
    {
        let mut ds = docs();
        ds.extend(big_docs());
        ds.extend(wide_docs());
        spaces.push(space("levels", format!("every inner level of {} documents, behind nothing and behind other tags, mapped level by level up to the root", ds.len()), move |ch| {
            let x = ch.pick(&ds);
            let before: &[u8] = *ch.pick(&[&[][..], &[0], &[3, 9, 17, 2, b'h', b'i']]);
            ch.seen_bytes(&enc(x));
            levels(ch, x, &enc(x), false, before)
        }));
        let leaves = vec![t(V::Null), t(V::Int(0xF8)), raw(0x1F8, &[1])];
        let n = if th { 6 } else { 5 };
        spaces.push(space("trees", format!("every tree of at most {} tags over 3 leaves and the containers: every inner level", n), move |ch| {
            let mut b = n;
            let x = tree(ch, &mut b, n, &leaves);
            let e = enc(&x);
            ch.seen_bytes(&e);
            levels(ch, &x, &e, false, &[2, 7])
        }));
        let deep = if th { 120 } else { 60 };
        spaces.push(space("chains", format!("nesting chains of every depth up to {}, every pattern of container kinds of period 3: every inner level", deep), move |ch| {
            let d = 1 + ch.choose(deep);
            let pat = [ch.choose(3), ch.choose(3), ch.choose(3)];
            let x = chain(d, &pat, raw(300, &fill(240, 1)), ch.flag());
            levels(ch, &x, &enc(&x), false, &[])
        }));
    }
    {
        let ds: Vec<Vec<u8>> = kinds().iter().map(enc).collect();
        let n = if th { 4 } else { 3 };
        spaces.push(space("by_id", format!("every sequence of {} tags of {} kinds, each asked for without identifier, by its own, by another", n, ds.len()), move |ch| {
            let mut b = vec![];
            let mut how = vec![];
            for _ in 0..n {
                b.extend(ch.pick(&ds));
                how.push(ch.choose(3));
            }
            let want = layout(&b);
            let mut r = ByteArrayReader::new(&b);
            let mut s = RawTagScanner::new(&mut r);
            for (l, h) in want.iter().zip(&how) {
                let o = match h {
                    0 => s.next_tag(),
                    1 => s.next_tag_if_id(l.id),
                    _ => s.next_tag_if_id(l.id ^ 1),
                };
                match (h, o) {
                    (2, Err(ErrorKind::UnexpectedTagType)) => {}
                    (0, Ok(Some(e))) | (1, Ok(Some(e))) => same(&e, l, Some(&b)).map_err(|m| format!("{} asked {:?}: {}", hex(&b), how, m))?,
                    (_, o) => return Err(format!("{} asked {:?}: {:?} for {:?}", hex(&b), how, o, l)),
                }
                ch.op();
            }
            for id in [None, Some(0), Some(want[0].id), Some(u64::MAX)] {
                let o = match id {
                    None => s.next_tag(),
                    Some(id) => s.next_tag_if_id(id),
                };
                ensure!(!matches!(o, Ok(Some(_))), "{}: {:?} asked at the end gives {:?}", hex(&b), id, o);
            }
            ensure!(r.offset() == b.len(), "{} asked {:?}: reader left at {}", hex(&b), how, r.offset());
            ch.seen_bytes(&b);
            Ok(())
        }));
        let mut ids = u64_edges();
        ids.extend(crate::alpha::id_aliases());
        ids.retain(|x| *x >= 16);
        ids.sort();
        ids.dedup();
        spaces.push(space("ids", format!("every pair of {} identifiers: asked for one, finding the other", ids.len()), move |ch| {
            let a = *ch.pick(&ids);
            let b = enc(&raw(a, &[1, 2]));
            for want in &ids {
                let mut r = ByteArrayReader::new(&b);
                let o = RawTagScanner::new(&mut r).next_tag_if_id(*want);
                match o {
                    Ok(Some(e)) if a == *want => same(&e, &layout(&b)[0], Some(&b))?,
                    Err(ErrorKind::UnexpectedTagType) if a != *want => {}
                    o => return Err(format!("asked for {} on {}: {:?}", want, a, o)),
                }
            }
            ch.visit(ids.len() as u64 - 1);
            ch.ops(ids.len() as u64);
            ch.seen(a);
            Ok(())
        }));
    }
    {
        let al: Vec<u64> = if th {
            vec![0, 1, 2, 3, 4, 5, 7, 9, 10, 11, 248, 65535, 65536, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 10, u64::MAX - 1, u64::MAX]
        } else {
            vec![0, 1, 2, 3, 5, 10, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 5, u64::MAX - 1, u64::MAX]
        };
        let al = Arc::new(al);
        spaces.push(space("mapping", format!("every (child, parent) pair with offset, header and value size from {} values up to 2^64-1 whose ends fit 64 bits", al.len()), move |ch| {
            let mk = |a: u64, h: u64, v: u64| if a as u128 + h as u128 + v as u128 <= u64::MAX as u128 { Some(L { id: a ^ v, off: a, hdr: h, val: v }) } else { None };
            let c = match mk(*ch.pick(&al), *ch.pick(&al), *ch.pick(&al)) {
                Some(c) => c,
                None => return Ok(()),
            };
            let e = RawTagOffset::new(c.id, c.off, c.hdr, c.val);
            same(&e, &c, None)?;
            let mut n = 0;
            for a in al.iter() {
                for h in al.iter() {
                    for v in al.iter() {
                        let p = match mk(*a, *h, *v) {
                            Some(p) => p,
                            None => continue,
                        };
                        let q = RawTagOffset::new(p.id, p.off, p.hdr, p.val);
                        let r = e.map_to_parent_space(&q);
                        n += 1;
                        match r {
                            Ok(m) => {
                                ensure!(c.end() <= p.val, "{:?} does not fit {:?} but maps to {:?}", c, p, m);
                                same(&m, &L { off: p.off + p.hdr + c.off, ..c }, None).map_err(|x| format!("{:?} in {:?}: {}", c, p, x))?;
                            }
                            Err(x) => ensure!(c.end() > p.val, "{:?} fits {:?} but is rejected: {:?}", c, p, x),
                        }
                        same(&q, &p, None)?;
                    }
                }
            }
            same(&e, &c, None)?;
            ch.visit(n);
            ch.ops(n + 1);
            ch.seen(c.off ^ c.hdr.rotate_left(20) ^ c.val.rotate_left(40));
            Ok(())
        }));
        spaces.push(space("values", "every entry within 9 bytes and every part of it: accessors, slices, copies, equality, default", |ch| {
            let b: Vec<u8> = (0..9).collect();
            let (o, h, v) = (ch.choose(10), ch.choose(10), ch.choose(10));
            if o + h + v > 9 {
                return Ok(());
            }
            let l = L { id: 77, off: o as u64, hdr: h as u64, val: v as u64 };
            let e = RawTagOffset::new(77, l.off, l.hdr, l.val);
            same(&e, &l, Some(&b))?;
            let c = e;
            same(&c, &l, Some(&b))?;
            ensure!(c == e && e.clone() == e, "{:?} differs from its copy", e);
            for (i, a, x, y) in [(78, 0, 0, 0), (77, 1, 0, 0), (77, 0, 1, 0), (77, 0, 0, 1)] {
                let z = RawTagOffset::new(i, l.off + a, l.hdr + x, l.val + y);
                ensure!(z != e, "{:?} equals {:?}", z, e);
            }
            same(&RawTagOffset::default(), &L { id: 0, off: 0, hdr: 0, val: 0 }, Some(&b))?;
            ch.op();
            ch.seen((o * 100 + h * 10 + v) as u64);
            Ok(())
        }));
    }
    Prop { id: "C22", spaces, assumptions: vec!["at the end of the data the scanner may answer with an error or with no tag: the documentation does not choose".into(), "entries whose end exceeds 2^64-1 cannot come from a scan and are not built by hand".into()] }
}
