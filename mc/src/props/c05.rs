//! C05: text is exact UTF-8 and invalid UTF-8 is always rejected.
use crate::alpha::*;
use crate::engine::*;
use crate::env::*;
use crate::model::{frame, hex, ilint, utf8_ok};
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::data::{StringValueReader, ValueWriter};
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization::{StringDeserializer, ValueSerializer};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::{tag_downcast_ref, ILTag, ILTagFactory};

/// The cheapest reading entry point, for the sweeps.
#[inline]
fn quick(b: &[u8]) -> R {
    let ok = utf8_ok(b);
    let mut r = ByteArrayReader::new(b);
    match il2_iltags::io::data::read_string(&mut r, b.len()) {
        Ok(s) if ok && s.as_bytes() == b => {}
        Err(_) if !ok => {}
        x => return Err(format!("read_string({}) = {:?}, well-formed: {}", hex(b), x, ok)),
    }
    let mut tag = ILStringTag::new();
    let mut r = ByteArrayReader::new(b);
    let got = tag.deserialize_value(&NOF, b.len(), &mut r);
    match got {
        Ok(()) if ok && tag.value().as_bytes() == b => Ok(()),
        Err(_) if !ok => Ok(()),
        x => Err(format!("ILStringTag of {}: {:?} {:?}, well-formed: {}", hex(b), x.is_ok(), tag.value(), ok)),
    }
}
static NOF: il2_iltags::tags::util::UntouchbleTagFactory = il2_iltags::tags::util::UntouchbleTagFactory {};

fn tagged(b: &[u8]) -> Vec<u8> {
    frame(17, b)
}

/// Every operation that produces text.
fn full(ch: &Ch, f: &ILStandardTagFactory, b: &[u8]) -> R {
    quick(b)?;
    let ok = utf8_ok(b);
    ch.say(|| format!("{} is {}", hex(b), if ok { "text" } else { "not text" }));
    ch.sample(|| format!("{} -> {}", hex(b), ok));
    let verdict = |name: &str, got: Option<Vec<u8>>| -> R {
        ch.op();
        match got {
            Some(s) if ok && s == b => Ok(()),
            None if !ok => Ok(()),
            Some(s) if ok => Err(format!("{} of {} returned {}", name, hex(b), hex(&s))),
            Some(s) => Err(format!("{} of {} returned {} although it is not UTF-8", name, hex(b), hex(&s))),
            None => Err(format!("{} of {} failed although it is UTF-8", name, hex(b))),
        }
    };
    let bytes = |s: String| s.into_bytes();
    for k in 0..N_READERS {
        let mut src = b.to_vec();
        src.push(b'Z');
        let n = b.len();
        macro_rules! e {
            ($name:expr, $src:expr, $f:expr) => {{
                let (got, used) = with_reader(k, $src, $f);
                ensure!(!ok || used == $src.len() - 1, "{} of {} through {} used {} bytes", $name, hex(b), reader_name(k), used);
                verdict(&format!("{} through {}", $name, reader_name(k)), got)?;
            }};
        }
        e!("read_string", &src, |r: &mut dyn Reader| il2_iltags::io::data::read_string(r, n).ok().map(bytes));
        e!("dyn read_string", &src, |r: &mut dyn Reader| r.read_string(n).ok().map(bytes));
        e!("dyn deserialize_string", &src, |r: &mut dyn Reader| r.deserialize_string(n).ok().map(bytes));
        let mut t = tagged(b);
        t.push(b'Z');
        e!("string tag value", &t, |r: &mut dyn Reader| deserialize_string_tag_from_value(r).ok().map(bytes));
        e!("string tag value into", &t, |r: &mut dyn Reader| {
            let mut s = "previous, longer than the new one".to_string();
            deserialize_string_tag_from_value_into(r, &mut s).ok().map(|_| s.into_bytes())
        });
        e!("string tag", &t, |r: &mut dyn Reader| f.deserialize(r).ok().map(|x| tag_downcast_ref::<ILStringTag>(x.as_ref()).unwrap().value().as_bytes().to_vec()));
    }
    let mut r = VecReader::new(b);
    verdict("concrete read_string", r.read_string(b.len()).ok().map(bytes))?;
    let mut r = VecReader::new(b);
    verdict("concrete deserialize_string", r.deserialize_string(b.len()).ok().map(bytes))?;
    let mut r = VecReader::new(b);
    verdict("dyn StringValueReader", (&mut r as &mut dyn StringValueReader).deserialize_string(b.len()).ok().map(bytes))?;
    // Reuse of a tag that held something else.
    let mut tag = ILStringTag::with_value("something longer than most of the inputs \u{e9}");
    let mut r = VecReader::new(&tagged(b));
    verdict("string tag reused", f.deserialize_into(&mut r, &mut tag).ok().map(|_| tag.value().as_bytes().to_vec()))?;
    // Keys and values of dictionaries.
    let two = |a: &[u8], k: &[u8], id: u64, val: &[u8]| -> Vec<u8> {
        let mut v = vec![2u8];
        v.extend(tagged(a));
        v.extend_from_slice(val);
        v.extend(tagged(k));
        v.extend_from_slice(val);
        frame(id, &v)
    };
    let good = tagged(b"ok");
    for at in 0..2 {
        let other: &[u8] = if b == b"other" { b"another" } else { b"other" };
        let (x, y) = if at == 0 { (b, other) } else { (other, b) };
        let d = f.from_bytes(&two(x, y, 30, &[3, 7])).ok();
        verdict("dictionary key", d.and_then(|d| tag_downcast_ref::<ILDictTag>(d.as_ref()).unwrap().value().keys().find(|k| k.as_bytes() != other).map(|k| k.as_bytes().to_vec())))?;
        let d = f.from_bytes(&two(x, y, 31, &good)).ok();
        verdict("text dictionary key", d.and_then(|d| tag_downcast_ref::<ILStrDictTag>(d.as_ref()).unwrap().value().keys().find(|k| k.as_bytes() != other).map(|k| k.as_bytes().to_vec())))?;
    }
    let mut v = vec![1u8];
    v.extend(tagged(b"k"));
    v.extend(tagged(b));
    let d = f.from_bytes(&frame(31, &v)).ok();
    verdict("text dictionary value", d.map(|d| tag_downcast_ref::<ILStrDictTag>(d.as_ref()).unwrap().get("k").unwrap().as_bytes().to_vec()))?;
    let d = f.from_bytes(&frame(30, &v)).ok();
    verdict("text inside a dictionary", d.map(|d| tag_downcast_ref::<ILStringTag>(tag_downcast_ref::<ILDictTag>(d.as_ref()).unwrap().get("k").unwrap()).unwrap().value().as_bytes().to_vec()))?;
    let d = f.from_bytes(&frame(22, &tagged(b))).ok();
    verdict("text inside a sequence", d.map(|d| tag_downcast_ref::<ILStringTag>(tag_downcast_ref::<ILTagSeqTag>(d.as_ref()).unwrap().value()[0].as_ref()).unwrap().value().as_bytes().to_vec()))?;
    if ok {
        write(ch, std::str::from_utf8(b).map_err(|_| "harness: utf8 automaton".to_string())?)?;
    }
    ch.seen_bytes(b);
    Ok(())
}

/// Every operation that writes text.
fn write(ch: &Ch, s: &str) -> R {
    let want = s.as_bytes();
    let tagw = tagged(want);
    for k in 0..N_WRITERS {
        macro_rules! w {
            ($name:expr, $want:expr, $f:expr) => {{
                ch.op();
                let (ok, out) = with_writer(k, $want.len(), $f);
                ensure!(ok && out[..] == $want[..], "{} of {:?} through {} wrote {} ok={}", $name, s, writer_name(k), hex(&out), ok);
            }};
        }
        w!("write_string", want, |w: &mut dyn Writer| il2_iltags::io::data::write_string(s, w).is_ok());
        w!("write_value", want, |w: &mut dyn Writer| w.write_value(s).is_ok());
        w!("serialize_value", want, |w: &mut dyn Writer| ValueSerializer::<&str>::serialize_value(w, s).is_ok());
        w!("string tag from value", tagw, |w: &mut dyn Writer| serialize_string_tag_from_value(s, w).is_ok());
        w!("string tag", tagw, |w: &mut dyn Writer| ILStringTag::with_value(s).serialize(w).is_ok());
    }
    let mut w = VecWriter::new();
    ensure!(w.write_value(s).is_ok() && w.as_slice() == want, "concrete write_value of {:?}", s);
    ensure!(string_tag_size_from_value(s) == tagw.len() as u64, "string_tag_size_from_value({:?}) = {}", s, string_tag_size_from_value(s));
    let mut t = ILStringTag::new();
    t.set_value(s);
    ensure!(t.value() == s, "set_value({:?})", s);
    ensure!(t.to_bytes().map_err(|e| format!("{:?}", e))? == tagw, "to_bytes of {:?}", s);
    let mut d = ILStrDictTag::new();
    d.insert(s, s);
    let mut v = ilint(1);
    v.extend(&tagw);
    v.extend(&tagw);
    ensure!(d.to_bytes().map_err(|e| format!("{:?}", e))? == frame(31, &v), "dictionary of {:?}", s);
    Ok(())
}

fn fac() -> ILStandardTagFactory {
    ILStandardTagFactory::new(false)
}

const FAR: [usize; 24] = [33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 243, 247, 248, 255, 256, 257, 511, 512, 513, 1023, 1024, 4096, 4097, 65791];
/// A text of `n` characters with a fragment in front of character `at`.
fn around(n: usize, kind: usize, at: usize, frag: &[u8]) -> Vec<u8> {
    const UNIT: [[&str; 2]; 5] = [["a", "z"], ["\u{e9}", "\u{7ff}"], ["\u{20AC}", "\u{FFFD}"], ["\u{1F600}", "\u{10FFFF}"], ["\u{e9}", "a"]];
    let mut b = vec![];
    for i in 0..n {
        if i == at {
            b.extend(frag);
        }
        b.extend(UNIT[kind][i % 2].as_bytes());
    }
    if at == n {
        b.extend(frag);
    }
    b
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let (f1, f2, f3, f5, f6, f7, f8) = (fac(), fac(), fac(), fac(), fac(), fac(), fac());
    let nclass = if th { 6 } else { 5 };
    Prop {
        id: "C05",
        spaces: vec![
            super::huge::texts(tier),
            space("pairs", "every byte sequence of 0, 1 and 2 bytes through every operation that produces text (key, value, string tag, readers x 12)", move |ch| {
                let n = ch.choose(3);
                let mut b = vec![];
                for _ in 0..n {
                    b.push(ch.choose(256) as u8);
                }
                full(ch, &f1, &b)
            }),
            space("classes3", "every sequence of 3 bytes over the 25 boundary bytes of the UTF-8 byte classes, through every operation", move |ch| {
                let b = [*ch.pick(&UTF8_CLASS), *ch.pick(&UTF8_CLASS), *ch.pick(&UTF8_CLASS)];
                full(ch, &f2, &b)
            }),
            space("triples", "every sequence of 3 bytes", |ch| {
                let a = ch.choose(256) as u8;
                let b = ch.choose(256) as u8;
                for c in 0..=255u8 {
                    quick(&[a, b, c])?;
                }
                ch.visit(255);
                ch.ops(512);
                ch.seen(a as u64);
                Ok(())
            }),
            space("classes", format!("every sequence of 4 to {} bytes over the 25 boundary bytes", nclass), move |ch| {
                let n = ch.range(4, nclass);
                let mut b = [0u8; 6];
                for x in b.iter_mut().take(n - 2) {
                    *x = *ch.pick(&UTF8_CLASS);
                }
                for x in UTF8_CLASS {
                    for y in UTF8_CLASS {
                        b[n - 2] = x;
                        b[n - 1] = y;
                        quick(&b[..n])?;
                    }
                }
                ch.visit(624);
                ch.ops(1250);
                Ok(())
            }),
            space("quads", "every 4-byte sequence with a lead byte of 0xE0..0xF7 and continuation bytes from the 12 boundary bytes around 0x80..0xBF", |ch| {
                const C: [u8; 12] = [0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF];
                let a = 0xE0 + ch.choose(24) as u8;
                let b = *ch.pick(&C);
                for c in C {
                    for d in C {
                        quick(&[a, b, c, d])?;
                        quick(&[b'x', a, b, c, d, b'y'])?;
                    }
                }
                ch.visit(287);
                ch.ops(576);
                Ok(())
            }),
            space("scalars", "every Unicode scalar value and every surrogate code point, read and written; and through every operation for 0..0x900 and the last 16 of each plane", move |ch| {
                let hi = ch.choose(0x1100);
                for lo in 0..256u32 {
                    let c = (hi as u32) << 8 | lo;
                    match char::from_u32(c) {
                        Some(x) => {
                            let s = x.to_string();
                            quick(s.as_bytes())?;
                            if c < 0x900 || c & 0xFFFF >= 0xFFF0 {
                                full(ch, &f3, s.as_bytes())?;
                            }
                        }
                        None => {
                            // Encoded as if surrogates were characters.
                            full(ch, &f3, &[0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 0x3F) as u8, 0x80 | (c & 0x3F) as u8])?;
                        }
                    }
                }
                ch.visit(255);
                ch.ops(512);
                Ok(())
            }),
            space("positions", "each of 12 malformed fragments at every position of texts of up to 24 characters of 1, 2, 3, 4 bytes or mixed, and the same texts without it", move |ch| {
                const BAD: [&[u8]; 12] = [
                    &[0x80], &[0xBF], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xE0, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xF0, 0x80, 0x80, 0x80],
                    &[0xF4, 0x90, 0x80, 0x80], &[0xF5, 0x80, 0x80, 0x80], &[0xE2, 0x82], &[0xFF],
                ];
                let kind = ch.choose(5);
                let n = ch.choose(25);
                let frag = ch.choose(13);
                let at = ch.choose(if frag == 12 { 1 } else { n + 1 });
                let b = around(n, kind, at, if frag < 12 { BAD[frag] } else { &[] });
                full(ch, &f5, &b)
            }),
            space("far_positions", "each of 5 malformed fragments at the first 2, the last 20 and the middle positions of longer texts (33 to 65791 characters around the sizes of blocks) of 1, 2, 3, 4 bytes or mixed", move |ch| {
                const BAD: [&[u8]; 6] = [&[0x80], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0xE2, 0x82], &[0xFF], &[]];
                let kind = ch.choose(5);
                let n = *ch.pick(&FAR);
                let frag = *ch.pick(&BAD);
                let at = if frag.is_empty() {
                    0
                } else {
                    match ch.choose(23) {
                        k @ 0..=1 => k,
                        2 => n / 2,
                        k => n - (k - 3),
                    }
                };
                let b = around(n, kind, at, frag);
                if b.len() > 5000 {
                    return quick(&b);
                }
                full(ch, &f7, &b)
            }),
            space("beside", "text entries (2 dictionaries) whose value has as many bytes as its key (0 to 40 and around 64, 128, 256, 512, 4096) and is it, or it except for one place, well-formed or not, at every place (of the longer: at both ends, around the middle and the powers of two); the same with the key as the one that differs, and with two elements of a sequence", move |ch| {
                const REP: [&[u8]; 8] = [b"Z", &[0x80], &[0xC0], &[0xFF], &[0xE9], "\u{e9}".as_bytes(), &[0xED, 0xA0, 0x80], &[]];
                let mut ls: Vec<usize> = (0..=40).collect();
                ls.extend([63, 64, 65, 128, 129, 255, 256, 257, 512, 513, 4096]);
                let n = *ch.pick(&ls);
                let r = *ch.pick(&REP);
                let key: Vec<u8> = fill(n, 7).iter().map(|b| b'a' + b % 26).collect();
                let mut cases = 0;
                for p in super::docs::odd_places(n, th) {
                    if p + r.len() > n {
                        break;
                    }
                    let mut other = key.clone();
                    other[p..p + r.len()].copy_from_slice(r);
                    let ok = utf8_ok(&other);
                    for (a, b) in [(&key, &other), (&other, &key)] {
                        let two = [tagged(a), tagged(b)].concat();
                        for (id, head) in [(31u64, &[1u8][..]), (30, &[1]), (31, &[2, 17, 1, 0, 17, 2, b'A', b'A']), (22, &[])] {
                            if n == 0 && head.len() > 1 {
                                continue;
                            }
                            let data = frame(id, &[head, &two[..]].concat());
                            let got = f8.from_bytes(&data);
                            ensure!(got.is_ok() == ok, "{} is {} although the texts are {}", hex(&data), if got.is_ok() { "accepted" } else { "refused" }, if ok { "well-formed" } else { "not" });
                            if let Ok(d) = got {
                                let back = d.to_bytes().map_err(|e| format!("{:?}", e))?;
                                ensure!(back == data, "{} is decoded and serialized as {}", hex(&data), hex(&back));
                            }
                            ch.op();
                            cases += 1;
                        }
                    }
                    ch.seen_bytes(&other[..other.len().min(40)]);
                }
                ch.visit((cases as u64).max(1) - 1);
                Ok(())
            }),
            space("lengths", "texts of each boundary length up to 65791 bytes made of 1, 2, 3 and 4-byte characters with NUL, spaces and line ends at both ends", move |ch| {
                let ls = lengths(65791);
                let n = *ch.pick(&ls);
                let unit = *ch.pick(&["x", "\u{e9}", "\u{20AC}", "\u{1F600}"]);
                let edge = *ch.pick(&["", "\0", " ", "\r\n", "\u{FEFF}"]);
                let mut s = edge.to_string();
                while s.len() + unit.len() + edge.len() <= n {
                    s.push_str(unit);
                }
                s.push_str(edge);
                if n > 1100 {
                    quick(s.as_bytes())?;
                    return write(ch, &s);
                }
                full(ch, &f6, s.as_bytes())
            }),
        ],
        assumptions: vec!["longer malformed texts are covered by fragments at every position, not by every byte combination".into()],
    }
}
