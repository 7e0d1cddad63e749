//! C09: decoding untrusted bytes always terminates normally.
use super::dec::{fs, mutate, Fs, SYM};
use super::docs::*;
use super::nested_bytes;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::{known, Prop};
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{LimitedReader, ReadReader};
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::util::*;
use il2_iltags::tags::ILTagFactory;

/// Decodes `b` in every way into fresh tags and uses whatever came out.
fn poke(ch: &Ch, b: &[u8], f: &Fs) -> R {
    ch.op();
    let mut code = 0u64;
    for strict in [false, true] {
        let fac = if strict { &f.strict } else { &f.lax };
        let mut r = ByteArrayReader::new(b);
        if let Ok(t) = fac.deserialize(&mut r) {
            code += 1;
            ensure!(r.offset() <= b.len(), "reader at {} of {}", r.offset(), b.len());
            // Whatever was decoded can be measured, written, cloned and compared.
            let n = t.size();
            let w = t.to_bytes().map_err(|e| format!("{}: decoded but does not serialize: {:?}", hex(b), e))?;
            ensure!(w.len() as u64 == n, "{}: size {} but {} bytes", hex(b), n, w.len());
            let c = iltag_clone_with_factory(fac, t.as_ref()).map_err(|e| format!("{}: decoded but cannot be cloned: {:?}", hex(b), e))?;
            ensure!(iltag_are_equal(c.as_ref(), t.as_ref()), "{}: clone differs", hex(b));
        }
        code *= 4;
    }
    let _ = f.lax.from_bytes(b);
    ch.seen(code);
    ch.seen(b.first().copied().unwrap_or(0) as u64);
    Ok(())
}
/// Every other reader, and scanning.
fn poke_sources(b: &[u8], f: &Fs) -> R {
    for k in 1..N_READERS {
        let (_, n) = with_reader(k, b, |r| f.lax.deserialize(r).is_ok());
        ensure!(n <= b.len(), "{}: {} consumed", reader_name(k), n);
    }
    let mut r = ByteArrayReader::new(b);
    let mut l = LimitedReader::new(&mut r, b.len() / 2 + 1);
    let _ = f.strict.deserialize(&mut l);
    let mut r = VecReader::new(b);
    let mut s = RawTagScanner::new(&mut r);
    for _ in 0..b.len() + 2 {
        if !matches!(s.next_tag(), Ok(Some(_))) {
            break;
        }
    }
    Ok(())
}
/// Into existing tags of every kind: both whole and value only.
fn poke_into(b: &[u8], f: &Fs, all: &[T]) -> R {
    for x in all {
        let mut t = build(x);
        let _ = f.lax.deserialize_into(&mut ByteArrayReader::new(b), t.as_mut());
        // A tag left by a failed attempt is still usable.
        let _ = t.size();
        let _ = t.to_bytes();
        let _ = iltag_clone(t.as_ref());
        for n in [0, 1, b.len().saturating_sub(1), b.len(), b.len() + 1, 16, 248] {
            let mut t = build(x);
            let _ = t.deserialize_value(&f.lax, n, &mut ByteArrayReader::new(b));
            let _ = t.to_bytes();
        }
    }
    Ok(())
}
fn poke_prims(b: &[u8]) {
    macro_rules! all {
        ($($t:ty),*) => { $(
            let _ = ValueReader::<$t>::read_value(&mut ByteArrayReader::new(b));
            let _ = ValueReader::<$t>::read_value(&mut ReadReader::new(&mut &b[..]));
        )* };
    }
    all!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
    let _ = il2_iltags::ilint::decode(&mut ByteArrayReader::new(b));
    let _ = il2_iltags::ilint::decode_from_bytes(b);
    let _ = il2_iltags::ilint::decode_body(b);
    let _ = il2_iltags::ilint::signed_decode(&mut ByteArrayReader::new(b));
    for n in 0..=b.len() + 1 {
        let _ = StringValueReader::read_string(&mut ByteArrayReader::new(b), n);
    }
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = fs();
    let empties: std::sync::Arc<Vec<T>> = std::sync::Arc::new(kinds());
    let mut spaces = vec![];
    {
        let f = f.clone();
        let e = empties.clone();
        spaces.push(space("short_everything", "every byte sequence of up to 2 bytes through every decoding operation, every reader and into an existing tag of every kind", move |ch| {
            let n = ch.choose(3);
            let mut b = vec![0u8; n];
            if n > 0 {
                b[0] = ch.choose(256) as u8;
            }
            let m = if n > 1 { 256 } else { 1 };
            for x in 0..m {
                if n > 1 {
                    b[1] = x as u8;
                }
                poke(ch, &b, &f)?;
                poke_prims(&b);
                poke_sources(&b, &f)?;
                poke_into(&b, &f, &e)?;
            }
            ch.visit(m as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        spaces.push(space("short", "every byte sequence of 3 bytes (also followed by a zero and a 0xFF byte), decoded, written, cloned, scanned", move |ch| {
            let a = ch.choose(256) as u8;
            let c = ch.choose(256) as u8;
            for d in 0..=255u8 {
                for t in [&[][..], &[0], &[0xFF]] {
                    let b = [&[a, c, d][..], t].concat();
                    if heavy(&b, 1 << 20) {
                        continue;
                    }
                    poke(ch, &b, &f)?;
                }
            }
            ch.visit(3 * 256 - 1);
            Ok(())
        }));
    }
    let ds: Vec<Vec<u8>> = docs().iter().map(enc).collect();
    {
        let f = f.clone();
        let ds: Vec<Vec<u8>> = ds.iter().cloned().chain(big_docs().iter().map(enc)).collect();
        spaces.push(space("mutations", format!("{} documents x cut, insert, replace, delete, duplicate, swap at every position", ds.len()), move |ch| {
            let d = ch.pick(&ds).clone();
            mutate(ch, &d, &mut |b| if heavy(b, 1 << 20) { Ok(()) } else { poke(ch, b, &f) })
        }));
    }
    {
        let f = f.clone();
        let e = empties.clone();
        let ds = ds.clone();
        spaces.push(space("mutations_into", format!("{} documents x every position replaced by {} structural bytes or cut, decoded into existing tags of every kind and by every reader", ds.len(), SYM.len()), move |ch| {
            let d = ch.pick(&ds).clone();
            let at = ch.choose(d.len());
            for s in SYM {
                let mut b = d.clone();
                b[at] = s;
                if heavy(&b, 1 << 16) {
                    continue;
                }
                poke_into(&b, &f, &e)?;
                poke_sources(&b, &f)?;
            }
            poke_into(&d[..at], &f, &e)?;
            ch.visit(SYM.len() as u64);
            ch.op();
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let lim = if th { 3 } else { 2 };
        let all: Vec<T> = docs().into_iter().filter(|x| ilint_sites(x, 0) <= 14).collect();
        spaces.push(
            space("extremes", format!("{} documents x up to {} of their identifiers, lengths, counts and values replaced by extreme values (0, 1, 2^8..2^64 edges, above the size limit, overflowing)", all.len(), lim), move |ch| {
                let x = ch.pick(&all);
                let b = enc_with(x, &mut |_, v| {
                    const X: [u64; 18] = [0, 1, 15, 16, 247, 248, 255, 256, 503, 504, 65535, 65784, MAX + 1, 1 << 31, (1 << 32) - 1, 1 << 63, u64::MAX - 8, u64::MAX];
                    match ch.dev(X.len() + 2) {
                        0 => ilint(v),
                        k if k <= X.len() => ilint(X[k - 1]),
                        _ => vec![0xFF; 9],
                    }
                });
                poke(ch, &b, &f)?;
                if ch.devs_left() > 0 {
                    poke_sources(&b, &f)?;
                }
                Ok(())
            })
            .devs(lim),
        );
    }
    {
        let f = f.clone();
        let edges = crate::alpha::u64_edges();
        spaces.push(space("fields", format!("{} 64-bit values in every length and count field of every explicit tag, alone and inside each container", edges.len()), move |ch| {
            let v = *ch.pick(&edges);
            if v > 1 << 20 && v <= MAX {
                return Ok(());
            }
            let id = *ch.pick(&[16u8, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 30, 31, 32]);
            let tails: [&[u8]; 4] = [&[], &[0], &[1, 1, 1, 1, 1], &[17, 1, b'k', 17, 1, b'v']];
            for tail in tails {
                // As the length.
                let mut a = vec![id];
                a.extend(ilint(v));
                a.extend(tail);
                // As the count.
                let mut c = ilint(v);
                c.extend(tail);
                let c = frame(id as u64, &c);
                // As the length of a key or of a nested text.
                let mut k = vec![1, 17];
                k.extend(ilint(v));
                k.extend(tail);
                let k = frame(id as u64, &k);
                for b in [&a, &c, &k] {
                    poke(ch, b, &f)?;
                    for o in [frame(22, b), frame(21, &[&[1u8][..], b].concat()), frame(30, &[&[1u8, 17, 1, b'k'][..], b].concat())] {
                        poke(ch, &o, &f)?;
                        // The same with the outer length as extreme.
                        let mut x = vec![22];
                        x.extend(ilint(v));
                        x.extend(&o);
                        poke(ch, &x, &f)?;
                    }
                }
            }
            ch.visit(4 * 21 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        spaces.push(
            space("large", "lengths of 1 MB, 16 MB and 512 MB declared but not supplied, in every explicit tag, alone and in each container", move |ch| {
                let v = *ch.pick(&[1u64 << 20, 16 << 20, MAX]);
                let id = *ch.pick(&[16u8, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 30, 31]);
                // The full size only alone: it is slow.
                let shape = if v == MAX && ch.tier == Tier::Quick { 0 } else { ch.choose(4) };
                let mut a = vec![id];
                a.extend(ilint(v));
                a.extend([1, 17, 3, 0]);
                let b = match shape {
                    0 => a,
                    1 => [vec![22], ilint(v), a].concat(),
                    2 => [vec![21], ilint(v), vec![200], a].concat(),
                    _ => [vec![30], ilint(v), vec![1, 17, 1, b'k'], a].concat(),
                };
                poke(ch, &b, &f)?;
                Ok(())
            })
            .workers(4)
            .limit(60),
        );
    }
    {
        let f = f.clone();
        let depths: Vec<usize> = if th { (1..=700).collect() } else { (1..=100).chain((120..=400).step_by(40)).collect() };
        spaces.push(
            space("nesting", format!("nesting depths {:?} of every container kind, whole, cut at each of the last bytes and with the innermost byte changed, on a 2 MB stack", depths.chunks(if th { 700 } else { 100 }).map(|c| format!("{}..{}", c[0], c[c.len() - 1])).collect::<Vec<_>>()), move |ch| {
                let d = *ch.pick(&depths);
                let kind = ch.choose(3);
                let b = nested_bytes(kind, d);
                poke(ch, &b, &f)?;
                for k in 1..6.min(b.len()) {
                    poke(ch, &b[..b.len() - k], &f)?;
                }
                for v in [1, 15, 16, 22, 30, 0xFF] {
                    let mut c = b.clone();
                    *c.last_mut().unwrap() = v;
                    poke(ch, &c, &f)?;
                }
                ch.visit(11);
                Ok(())
            })
            .stack(2 << 20),
        );
    }
    {
        // Characters of every width at every place of long texts, also into tags that
        // hold a similar text already.
        let f = f.clone();
        let z: Vec<usize> = if th { (0..=4200).chain(8185..8200).chain(16_380..16_390).chain(65_530..65_545).collect() } else { (0..=1030).chain(2040..2056).chain(4090..4100).collect() };
        spaces.push(space("texts", format!("texts with a character of 2 to 4 bytes (whole, cut, or with a wrong byte) at every one of {} places, followed by 0, 1 or 300 more, as text, key and value; also into tags that hold a text with the same beginning", z.len()), move |ch| {
            let p = *ch.pick(&z);
            let wide = ["\u{e9}", "\u{20AC}", "\u{1F600}"][ch.choose(3)];
            let fac = &f.lax;
            for rest in [0usize, 1, 300] {
                for damage in 0..3 {
                    let mut x = vec![b'a'; p];
                    match damage {
                        0 => x.extend(wide.as_bytes()),
                        1 => x.extend(&wide.as_bytes()[..wide.len() - 1]),
                        _ => {
                            x.extend(wide.as_bytes());
                            *x.last_mut().unwrap() ^= 0x40;
                        }
                    }
                    x.extend(vec![b'b'; rest]);
                    let text = frame(17, &x);
                    let docs = [text.clone(), frame(30, &[&[1u8][..], &text, &[0]].concat()), frame(31, &[&[1u8][..], &text, &[17, 0]].concat()), frame(31, &[&[1u8, 17, 0][..], &text].concat())];
                    for (i, d) in docs.iter().enumerate() {
                        if rest == 300 && i > 0 && p % 16 != 0 {
                            continue;
                        }
                        let r = fac.from_bytes(d);
                        ensure!(r.is_ok() == (damage == 0), "text of {} then a character of {} bytes (damage {}) then {}, in place {}: decoded {}", p, wide.len(), damage, rest, i, r.is_ok());
                        ch.op();
                    }
                    // Held before: another character at the place, one byte only, nothing
                    // there, the same.
                    for (j, held) in ["\u{e9}", "\u{1F601}", "b", ""].iter().enumerate() {
                        let before = format!("{}{}{}", "a".repeat(p), held, "b".repeat(rest));
                        let mut tag = build(&t(V::Str(before.clone())));
                        let r = fac.deserialize_into(&mut ByteArrayReader::new(&text), tag.as_mut());
                        ensure!(r.is_ok() == (damage == 0), "text of {} then a character of {} bytes (damage {}) into a tag with a similar text ({}): {}", p, wide.len(), damage, j, r.is_ok());
                        if r.is_ok() {
                            ensure!(tag.to_bytes().map_err(|e| format!("{:?}", e))? == text, "text of {} then a character of {} bytes into a tag with a similar text ({}) gives another text", p, wide.len(), j);
                        }
                        ch.op();
                    }
                }
            }
            ch.visit(8);
            ch.seen(p as u64);
            Ok(())
        }));
    }
    {
        // Values passed over by the default skip, in streams that cannot seek.
        let z: Vec<usize> = sizes(if th { 1 << 20 } else { 262_145 }).into_iter().chain([65_536 + 512, 131_072 + 512, 196_608, 65_536 + 511]).collect();
        spaces.push(space("scans", format!("values of {} lengths up to {} passed over by the scanner and by skips of each reader, whole and cut", z.len(), z.iter().max().unwrap()), move |ch| {
            let n = *ch.pick(&z);
            let k = ch.choose(N_READERS);
            let d = [frame(16, &vec![5; n]), vec![3, 7]].concat();
            for cut in [0usize, 1, 2, 3, 700] {
                let b = &d[..d.len().saturating_sub(cut)];
                let (tags, _) = with_reader(k, b, |r| {
                    let mut r = Fwd(r);
                    let mut s = RawTagScanner::new(&mut r);
                    let mut tags = 0;
                    while tags < 4 && matches!(s.next_tag(), Ok(Some(_))) {
                        tags += 1;
                    }
                    tags
                });
                ensure!(tags <= 2 && (cut > 0 || tags == 2), "{} tags found by scanning a value of {} bytes, {} cut, by {}", tags, n, cut, reader_name(k));
                for wide in [false, true] {
                    let (r, _) = with_reader(k, b, |r| if wide { r.skip_u64(n as u64).is_ok() } else { r.skip(n).is_ok() });
                    ensure!(r == (b.len() >= n), "skipping {} of {} bytes by {}: {}", n, b.len(), reader_name(k), r);
                    ch.op();
                }
                ch.op();
            }
            ch.visit(4);
            ch.seen(n as u64);
            Ok(())
        }));
    }
    spaces.push(
        space("deep", "nesting depths 1000 (must work) and 100000 of every container kind, each in its own process with a 2 MB stack", move |ch| {
            let kind = ch.choose(3);
            let depth = *ch.pick(&[1000usize, 100_000]);
            deep(kind, depth)
        })
        .limit(120),
    );
    Prop { id: "C09", spaces, assumptions: vec!["stack of 2 MB per decoding thread, the default of Rust threads".into(), "a decode not ending within 60 s counts as not terminating".into()] }
}

fn deep(kind: usize, depth: usize) -> R {
    let name = ["seq", "array", "dict"][kind];
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    let o = std::process::Command::new(exe)
        .args(["deep", &kind.to_string(), &depth.to_string()])
        .output()
        .map_err(|e| format!("harness: {}", e))?;
    use std::os::unix::process::ExitStatusExt;
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    match o.status.code() {
        Some(0) => Ok(()),
        // Refusing a document nested this deep is a normal end.
        Some(10) if depth > 1000 => Ok(()),
        Some(c) => Err(format!("{} nested {} levels: wrong result {}", name, depth, c)),
        None => {
            let m = format!("decoding {} levels of nested {} ends the process with signal {:?}: {}", depth, name, o.status.signal(), err.trim());
            let overflow = o.status.signal() == Some(6) && err.contains("has overflowed its stack");
            if depth > 1000 && overflow && known("C09", &format!("stack-overflow-{}", name), &m) {
                return Ok(());
            }
            Err(m)
        }
    }
}
