//! C16: decoding is independent of the source and its chunking.
use super::dec::*;
use super::docs::*;
use super::prims::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::data::*;
use il2_iltags::io::{LimitedReader, ReadReader, Reader};
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::*;
use std::sync::Arc;

/// Compares the outcome of one decode with the model: value and position.
fn same(got: std::result::Result<Tag, ErrorKind>, used: usize, b: &[u8], strict: bool, what: &dyn Fn() -> String) -> R {
    match (got, dec_with(b, strict, true)) {
        (Ok(t), Ok((x, n))) => {
            let y = extract(t.as_ref())?;
            if y != x {
                return Err(format!("{}: {:?}, expected {:?}", what(), y, x));
            }
            if used != n {
                return Err(format!("{}: {} bytes taken from the source, expected {}", what(), used, n));
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(t), Err(e)) => Err(format!("{}: accepted as {:?}, expected an error ({:?})", what(), extract(t.as_ref()), e)),
        (Err(e), Ok((x, _))) => Err(format!("{}: {:?}, expected {:?}", what(), e, x)),
    }
}
fn kinds_agree(ch: &Ch, f: &Fs, b: &[u8]) -> R {
    if heavy(b, HEAVY) {
        return Ok(());
    }
    for k in 0..N_READERS {
        let (r, used) = with_reader(k, b, |r| f.lax.deserialize(r));
        same(r, used, b, false, &|| format!("{} from {}", hex(b), reader_name(k)))?;
    }
    ch.ops(N_READERS as u64);
    Ok(())
}
/// A tail that would be misread if anything were taken from it.
fn with_tail(b: &[u8]) -> Vec<u8> {
    [b, &[0xFF, 0x15, 0x80][..]].concat()
}

fn chunked(ch: &Ch, f: &ILStandardTagFactory, b: &[u8], how: usize) -> R {
    let b = with_tail(b);
    let b = &b[..];
    match how {
        0 => {
            let mut s = ChRead::new(ch, b);
            let r = f.deserialize(&mut ReadReader::new(&mut s));
            let used = s.p;
            same(r, used, b, false, &|| format!("{} from a stream with short and interrupted reads", hex(b)))?;
        }
        1 => {
            let mut s = ChRead::new(ch, b);
            let mut rr = ReadReader::new(&mut s);
            let r = f.deserialize(&mut LimitedReader::new(&mut rr, b.len()));
            let used = s.p;
            same(r, used, b, false, &|| format!("{} from a limited stream with short and interrupted reads", hex(b)))?;
        }
        2 => {
            let mut s = ChStream::new(Some(ch), b);
            let r = f.deserialize(&mut s);
            let used = s.pos as usize;
            same(r, used, b, false, &|| format!("{} from a seekable stream with short and interrupted reads", hex(b)))?;
        }
        _ => {
            // Straight into an existing tag.
            if let Ok((x, n)) = dec_with(b, false, true) {
                let mut tag = empty_like(&x);
                let mut s = ChRead::new(ch, b);
                f.deserialize_into(&mut ReadReader::new(&mut s), tag.as_mut()).map_err(|e| format!("{} into an existing tag: {:?}", hex(b), e))?;
                ensure_eq!(extract(tag.as_ref())?, x, "{} into an existing tag", hex(b));
                ensure_eq!(s.p, n, "bytes taken for {}", hex(b));
            }
        }
    }
    ch.op();
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = own_fs();
    let mut spaces = vec![];
    spaces.push(super::huge::reading(tier, "sources"));
    {
        let f = f.clone();
        let mut all: Vec<T> = extremes();
        all.extend(docs());
        all.extend(own_docs());
        all.extend(big_docs());
        all.extend(wide_docs());
        all.extend([t(V::Bytes(vec![7; 5000])), t(V::Str("\u{1F600}".repeat(1500))), raw(500, &[9; 70000])]);
        let all = Arc::new(all);
        spaces.push(space("readers", format!("{} documents, alone and followed by other data, x {} kinds of reader, both modes", all.len(), N_READERS), move |ch| {
            let x = ch.pick(&all);
            let k = ch.choose(N_READERS);
            let b = enc(x);
            for b in [b.clone(), with_tail(&b)] {
                for (fac, strict) in [(&f.lax, false), (&f.strict, true)] {
                    let (r, used) = with_reader(k, &b, |r| fac.deserialize(r));
                    same(r, used, &b, strict, &|| format!("{} from {} (strict {})", hex(&b), reader_name(k), strict))?;
                    ch.op();
                }
            }
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let mut all: Vec<T> = extremes();
        all.extend(docs());
        all.extend(own_docs());
        all.extend(big_docs());
        all.extend(wide_docs());
        all.extend([raw(500, &[9; 70000]), t(V::Bytes(vec![7; 5000]))]);
        spaces.push(space("forward_only", format!("{} documents, alone, followed by other data and cut at the first 20 places and in the middle, from a seekable stream that cannot go back, whole or byte by byte, both modes", all.len()), move |ch| {
            let x = ch.pick(&all);
            let b = enc(x);
            let mut forms = vec![b.clone(), with_tail(&b)];
            for at in (0..b.len().min(20)).chain([b.len() / 2, b.len() - 1]) {
                forms.push(b[..at].to_vec());
            }
            let mut cases = 0;
            for b in &forms {
                for step in [0, 1] {
                    for (fac, strict) in [(&f.lax, false), (&f.strict, true)] {
                        let mut s = Forward { b, p: 0, step };
                        let r = fac.deserialize(&mut s);
                        same(r, s.p, b, strict, &|| format!("{} from a stream that only goes forward, {} a call (strict {})", hex(b), step, strict))?;
                        ch.op();
                        cases += 1;
                    }
                }
            }
            ch.visit(cases - 1);
            ch.seen_bytes(&b[..b.len().min(40)]);
            Ok(())
        }));
    }
    {
        // Large documents, in pieces of every size.
        let f = f.clone();
        let z = sizes(if th { 1 << 20 } else { 140_000 });
        let steps = [0usize, 1, 7, 64, 255, 256, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537];
        spaces.push(space("sizes", format!("{} kinds of variable length x {} lengths and counts up to {}: {} kinds of reader, streams giving at most {} numbers of bytes a call (with and without interruptions), buffered readers of those capacities, followed by other data", N_SIZED, z.len(), z[z.len() - 1], N_READERS, steps.len()), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 7 && n > 5000 {
                return Ok(());
            }
            let x = sized(kind, n);
            let b = with_tail(&enc(&x));
            let end = b.len() - 3;
            let what = |how: String| format!("kind {} of size {} from {}", kind, n, how);
            let good = |r: std::result::Result<Tag, ErrorKind>, used: usize, how: &dyn Fn() -> String| -> R {
                let t = r.map_err(|e| format!("{}: {:?}", what(how()), e))?;
                ensure!(extract(t.as_ref())? == x, "{}: decoded as something else", what(how()));
                ensure_eq!(used, end, "{}: bytes taken", what(how()));
                Ok(())
            };
            for k in 0..N_READERS {
                let (r, used) = with_reader(k, &b, |r| f.lax.deserialize(r));
                good(r, used, &|| reader_name(k).to_string())?;
            }
            for step in steps {
                if step > b.len() || (step == 1 && n > 10_000) {
                    continue;
                }
                for interrupt_every in [0, 3] {
                    let mut s = StepRead { b: &b, p: 0, step, interrupt_every, calls: 0 };
                    let r = f.lax.deserialize(&mut ReadReader::new(&mut s));
                    good(r, s.p, &|| format!("a stream of {} bytes a call", step))?;
                }
                if step > 0 {
                    let mut r = std::io::BufReader::with_capacity(step, std::io::Cursor::new(&b[..]));
                    let o = f.lax.deserialize(&mut r);
                    let at = std::io::Seek::stream_position(&mut r).map_err(|_| "harness: position")? as usize;
                    good(o, at, &|| format!("a buffered reader of {} bytes", step))?;
                    let mut br = std::io::BufReader::with_capacity(step, &b[..]);
                    let o = f.lax.deserialize(&mut ReadReader::new(&mut br));
                    let left = br.buffer().len() + br.get_ref().len();
                    good(o, b.len() - left, &|| format!("a reader over a buffered reader of {} bytes", step))?;
                }
                ch.ops(4);
            }
            ch.visit(4 * steps.len() as u64 + N_READERS as u64);
            ch.seen((kind * 1_000_000 + n) as u64);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let ds: Vec<Vec<u8>> = docs().iter().chain(own_docs().iter()).map(enc).collect();
        spaces.push(space("damaged", format!("every single-place change of {} documents x {} kinds of reader", ds.len(), N_READERS), move |ch| {
            let b = ch.pick(&ds);
            mutate(ch, b, &mut |b| kinds_agree(ch, &f, b))
        }));
    }
    {
        let f = f.clone();
        let n = if th { 5 } else { 4 };
        spaces.push(space("strings", format!("every byte sequence of up to {} of {} symbols x {} kinds of reader", n, SYM.len(), N_READERS), move |ch| {
            let len = ch.choose(n + 1);
            let mut b = vec![];
            for _ in 0..len {
                b.push(*ch.pick(&SYM));
            }
            kinds_agree(ch, &f, &b)
        }));
    }
    {
        let f = f.clone();
        let ds: Vec<Vec<u8>> = docs().iter().chain(own_docs().iter()).map(enc).collect();
        let d = if th { 4 } else { 3 };
        spaces.push(
            space("chunking", format!("{} documents x 4 ways of reading a stream: every placement of up to {} short (1, half, all but one) or interrupted reads", ds.len(), d), move |ch| {
                let b = ch.pick(&ds);
                let how = ch.choose(4);
                chunked(ch, &f.lax, b, how)
            })
            .devs(d),
        );
    }
    {
        let f = f.clone();
        let ds: Vec<Vec<u8>> = kinds().iter().map(enc).filter(|b| b.len() <= 10).collect();
        let d = if th { 9 } else { 7 };
        spaces.push(
            space("chunking_deep", format!("{} short documents: every placement of up to {} short or interrupted reads", ds.len(), d), move |ch| {
                let b = ch.pick(&ds);
                let how = ch.choose(3);
                chunked(ch, &f.lax, b, how)
            })
            .devs(d),
        );
    }
    {
        let f = f.clone();
        let mut ds: Vec<Vec<u8>> = big_docs().iter().chain(wide_docs().iter()).map(enc).collect();
        ds.push(enc(&t(V::Bytes(vec![3; 1300]))));
        ds.push(enc(&t(V::Seq(vec![raw(300, &[4; 700]), t(V::Str("e".repeat(513)))]))));
        spaces.push(
            space("chunking_big", format!("{} documents of hundreds of bytes: every placement of one short or interrupted read", ds.len()), move |ch| {
                let b = ch.pick(&ds);
                let how = ch.choose(4);
                chunked(ch, &f.lax, b, how)
            })
            .devs(1),
        );
    }
    {
        // The failing documents: an error whatever the chunking.
        let f = f.clone();
        let mut bad: Vec<Vec<u8>> = vec![];
        for x in docs() {
            let b = enc(&x);
            for at in 0..b.len() {
                bad.push(b[..at].to_vec());
            }
        }
        bad.extend([vec![15], vec![1, 2], vec![17, 2, 0xC3, 0x28], vec![22, 1, 15], vec![21, 2, 2, 0], vec![24, 15], vec![30, 3, 1, 3, 1], vec![0xFF; 9], vec![10, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]]);
        bad.retain(|b| dec_with(b, false, true).is_err());
        spaces.push(
            space("chunking_bad", format!("{} truncated or malformed documents: every placement of one short or interrupted read, {} ways", bad.len(), 3), move |ch| {
                let b = ch.pick(&bad);
                match ch.choose(3) {
                    0 => {
                        let mut s = ChRead::new(ch, b);
                        let r = f.lax.deserialize(&mut ReadReader::new(&mut s));
                        ensure!(r.is_err(), "{} is accepted", hex(b));
                    }
                    1 => {
                        let mut s = ChStream::new(Some(ch), b);
                        let r = f.lax.deserialize(&mut s);
                        ensure!(r.is_err(), "{} is accepted", hex(b));
                    }
                    _ => {
                        let mut s = ChRead::new(ch, b);
                        let mut rr = ReadReader::new(&mut s);
                        let r = f.lax.deserialize(&mut LimitedReader::new(&mut rr, b.len()));
                        ensure!(r.is_err(), "{} is accepted", hex(b));
                    }
                }
                ch.op();
                Ok(())
            })
            .devs(1),
        );
    }
    {
        // The lower layers: each primitive read.
        let d = if th { 8 } else { 6 };
        spaces.push(
            space("primitives", format!("ILInt, signed ILInt, 8 to 64-bit values, text, bytes and skips from streams, through dynamic and sized readers: every placement of up to {} short or interrupted reads", d), move |ch| {
                let b: Vec<u8> = vec![0xFB, 1, 2, 3, 0xC4, 0x80, 9, 8, 7, 6];
                let op = ch.choose(19);
                let how = ch.choose(3);
                fn go(op: usize, r: &mut dyn Reader) -> std::result::Result<String, String> {
                    let e = |e: il2_iltags::io::ErrorKind| format!("{:?}", e);
                    let g = |e: ErrorKind| format!("{:?}", e);
                    Ok(match op {
                        9 => format!("{:?}", r.deserialize_bytes(6).map_err(g)?),
                        10 => format!("{:?}", Fwd(r).deserialize_bytes(6).map_err(g)?),
                        11 => {
                            let mut x = [0u8; 6];
                            Fwd(r).deserialize_bytes_into_slice(&mut x).map_err(g)?;
                            format!("{:?}", x)
                        }
                        12 => {
                            let mut x = vec![7u8; 9];
                            Fwd(r).deserialize_bytes_into_vec(6, &mut x).map_err(g)?;
                            format!("{:?}", x)
                        }
                        13 => {
                            let mut x = vec![7u8; 2];
                            r.deserialize_bytes_into_vec(6, &mut x).map_err(g)?;
                            format!("{:?}", x)
                        }
                        14 => {
                            let mut x = [0u8; 6];
                            r.deserialize_bytes_into_slice(&mut x).map_err(g)?;
                            format!("{:?}", x)
                        }
                        15 => format!("{:?}", il2_iltags::tags::deserialize_bytes(6, r).map_err(g)?),
                        16 => format!("{}", Fwd(r).deserialize_ilint().map_err(g)?),
                        17 => format!("{}", Fwd(r).deserialize_signed_ilint().map_err(g)?),
                        18 => format!("{}", ValueDeserializer::<u64>::deserialize_value(&mut Fwd(r)).map_err(g)?),
                        0 => format!("{}", r.read_ilint().map_err(e)?),
                        1 => format!("{}", r.read_signed_ilint().map_err(e)?),
                        2 => format!("{}", read_u16(r).map_err(e)?),
                        3 => format!("{}", read_i32(r).map_err(e)?),
                        4 => format!("{}", read_u64(r).map_err(e)?),
                        5 => format!("{:x}", read_f64(r).map_err(e)?.to_bits()),
                        6 => {
                            r.skip(3).map_err(e)?;
                            format!("{}", read_u8(r).map_err(e)?)
                        }
                        7 => {
                            let mut x = [0u8; 7];
                            r.read_all(&mut x).map_err(e)?;
                            format!("{:?}", x)
                        }
                        _ => {
                            r.skip_u64(6).map_err(e)?;
                            format!("{:?}", r.read_string(3).map_err(e)?)
                        }
                    })
                }
                let body = &b[1..5];
                let u = body.iter().fold(0u64, |a, x| a << 8 | *x as u64) + 248;
                let be = |n: usize| b[..n].iter().fold(0u64, |a, x| a << 8 | *x as u64);
                let (want, n) = match op {
                    0 => (format!("{}", u), 5),
                    1 => (format!("{}", unzigzag(u)), 5),
                    2 => (format!("{}", be(2)), 2),
                    3 => (format!("{}", be(4) as u32 as i32), 4),
                    4 => (format!("{}", be(8)), 8),
                    5 => (format!("{:x}", be(8)), 8),
                    6 => (format!("{}", b[3]), 4),
                    7 => (format!("{:?}", &b[..7]), 7),
                    9..=15 => (format!("{:?}", &b[..6]), 6),
                    16 => (format!("{}", u), 5),
                    17 => (format!("{}", unzigzag(u)), 5),
                    18 => (format!("{}", be(8)), 8),
                    _ => (format!("{:?}", "\t\u{8}\u{7}"), 9),
                };
                let (got, used) = match how {
                    0 => {
                        let mut s = ChRead::new(ch, &b);
                        (go(op, &mut ReadReader::new(&mut s)), s.p)
                    }
                    1 => {
                        let mut s = ChStream::new(Some(ch), &b);
                        (go(op, &mut s), s.pos as usize)
                    }
                    _ => {
                        let mut s = ChRead::new(ch, &b);
                        let mut rr = ReadReader::new(&mut s);
                        (go(op, &mut LimitedReader::new(&mut rr, n)), s.p)
                    }
                };
                ensure_eq!(got, Ok(want), "operation {} through reader {}", op, how);
                ensure_eq!(used, n, "bytes used by operation {} through reader {}", op, how);
                ch.op();
                Ok(())
            })
            .devs(d),
        );
    }
    {
        let ops = long_ops();
        let z = sizes(if th { 70_000 } else { 3000 });
        spaces.push(
            space("long_primitives", format!("{} reading operations x {} lengths up to {} from streams, plain and limited: every placement of one short or interrupted read", ops.len(), z.len(), z[z.len() - 1]), move |ch| {
                let (name, returned, op) = *ch.pick(&ops);
                let n = *ch.pick(&z);
                let how = ch.choose(3);
                let b = long_data(n, 9);
                let (r, used) = match how {
                    0 => {
                        let mut s = ChRead::new(ch, &b);
                        (op(&mut ReadReader::new(&mut s), n), s.p)
                    }
                    1 => {
                        let mut s = ChStream::new(Some(ch), &b);
                        (op(&mut s, n), s.pos as usize)
                    }
                    _ => {
                        let mut s = ChRead::new(ch, &b);
                        let mut rr = ReadReader::new(&mut s);
                        (op(&mut LimitedReader::new(&mut rr, n), n), s.p)
                    }
                };
                let r = r.map_err(|e| format!("{} of {} bytes through reader {}: {:?}", name, n, how, e))?;
                ensure!(!returned || r == b[..n], "{} of {} bytes through reader {} gives other bytes", name, n, how);
                ensure_eq!(used, n, "bytes taken by {} through reader {}", name, how);
                ch.op();
                ch.seen(n as u64);
                Ok(())
            })
            .devs(1),
        );
    }
    Prop { id: "C16", spaces, assumptions: vec![] }
}
