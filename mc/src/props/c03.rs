//! C03: signed ILInt mapping is an exact bijection.
use crate::alpha::*;
use crate::engine::*;
use crate::env::*;
use crate::model::{hex, ilint, un_ilint, unzigzag, zigzag};
use crate::sup::Prop;
use il2_iltags::ilint::*;
use il2_iltags::io::array::*;
use il2_iltags::io::data::{SignedILIntReader, SignedILIntWriter};
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization::{SignedILIntDeserializer, SignedILIntSerializer};

/// Both directions for one 64-bit pattern, read as a value and as a code.
#[inline]
fn quick(x: u64) -> R {
    let v = x as i64;
    let code = encode_sign(v);
    if code != zigzag(v) {
        return Err(format!("encode_sign({}) = {:#x}, expected {:#x}", v, code, zigzag(v)));
    }
    if decode_sign(code) != v {
        return Err(format!("decode_sign(encode_sign({})) = {}", v, decode_sign(code)));
    }
    if decode_sign(x) != unzigzag(x) {
        return Err(format!("decode_sign({:#x}) = {}, expected {}", x, decode_sign(x), unzigzag(x)));
    }
    if encode_sign(decode_sign(x)) != x {
        return Err(format!("encode_sign(decode_sign({:#x})) = {:#x}", x, encode_sign(decode_sign(x))));
    }
    if signed_encoded_size(v) != crate::model::ilint_arr(zigzag(v)).1 {
        return Err(format!("signed_encoded_size({}) = {}", v, signed_encoded_size(v)));
    }
    Ok(())
}

fn full(ch: &Ch, v: i64) -> R {
    quick(v as u64)?;
    let want = ilint(zigzag(v));
    ch.say(|| format!("{} must be written as {}", v, hex(&want)));
    ch.sample(|| format!("{} <-> {}", v, hex(&want)));
    for k in 0..N_WRITERS {
        macro_rules! w {
            ($name:expr, $f:expr) => {{
                ch.op();
                let f: fn(&mut dyn Writer, i64) -> bool = $f;
                let (ok, out) = with_writer(k, want.len(), |w| f(w, v));
                ensure!(ok && out == want, "{}({}) through {} wrote {} (ok={}), expected {}", $name, v, writer_name(k), hex(&out), ok, hex(&want));
            }};
        }
        w!("signed_encode", |w, v| signed_encode(v, w).is_ok());
        w!("write_signed_ilint", |w, v| w.write_signed_ilint(v).is_ok());
        w!("data::write_signed_ilint", |w, v| il2_iltags::io::data::write_signed_ilint(v, w).is_ok());
        w!("serialize_signed_ilint", |w, v| w.serialize_signed_ilint(v).is_ok());
    }
    let mut w = VecWriter::new();
    ensure!(w.write_signed_ilint(v).is_ok() && w.serialize_signed_ilint(v).is_ok() && (&mut w as &mut dyn SignedILIntWriter).serialize_signed_ilint(v).is_ok() && (&mut w as &mut dyn SignedILIntWriter).write_signed_ilint(v).is_ok(), "concrete signed writing of {} failed", v);
    let four: Vec<u8> = want.iter().cycle().take(4 * want.len()).copied().collect();
    ensure!(w.as_slice() == &four[..], "concrete signed writing of {} wrote {}", v, hex(w.as_slice()));
    for cap in 0..want.len() {
        ch.op();
        let mut b = vec![0u8; cap];
        ensure!(signed_encode(v, &mut ByteArrayWriter::new(&mut b)).is_err(), "signed_encode({}) into {} bytes succeeds", v, cap);
        let mut b = vec![0u8; cap];
        ensure!(ByteArrayWriter::new(&mut b).serialize_signed_ilint(v).is_err(), "serialize_signed_ilint({}) into {} bytes succeeds", v, cap);
        let mut b = vec![0u8; cap];
        ensure!(il2_iltags::io::data::write_signed_ilint(v, &mut ByteArrayWriter::new(&mut b)).is_err(), "write_signed_ilint({}) into {} bytes succeeds", v, cap);
    }
    let mut src = want.clone();
    src.push(0xFF);
    read(ch, &src)?;
    for cut in 0..want.len() {
        read(ch, &want[..cut])?;
    }
    ch.seen(want.len() as u64);
    Ok(())
}

/// Reading signed values equals the unsigned reading mapped.
fn read(ch: &Ch, b: &[u8]) -> R {
    let want = un_ilint(b).ok().map(|(u, n)| (unzigzag(u), n));
    for k in 0..N_READERS {
        macro_rules! e {
            ($name:expr, $f:expr) => {{
                ch.op();
                let f: fn(&mut dyn Reader) -> Option<i64> = $f;
                let (got, used) = with_reader(k, b, f);
                ensure!(got == want.map(|x| x.0), "{} of {} through {} = {:?}, expected {:?}", $name, hex(b), reader_name(k), got, want);
                if let Some((_, n)) = want {
                    ensure!(used == n, "{} of {} through {} used {} bytes", $name, hex(b), reader_name(k), used);
                }
            }};
        }
        e!("signed_decode", |r| signed_decode(r).ok());
        e!("read_signed_ilint", |r| r.read_signed_ilint().ok());
        e!("data::read_signed_ilint", |r| il2_iltags::io::data::read_signed_ilint(r).ok());
        e!("deserialize_signed_ilint", |r| r.deserialize_signed_ilint().ok());
    }
    let all = [
        VecReader::new(b).read_signed_ilint().ok(),
        VecReader::new(b).deserialize_signed_ilint().ok(),
        (&mut VecReader::new(b) as &mut dyn SignedILIntReader).read_signed_ilint().ok(),
        (&mut VecReader::new(b) as &mut dyn SignedILIntReader).deserialize_signed_ilint().ok(),
    ];
    for (i, g) in all.iter().enumerate() {
        ch.op();
        ensure!(*g == want.map(|x| x.0), "concrete signed reading {} of {} = {:?}, expected {:?}", i, hex(b), g, want);
    }
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let e = u64_edges();
    let e2 = e.clone();
    let top: u64 = if th { 1 << 32 } else { 1 << 25 };
    let pairs = u64_pairs();
    let pat = vec![0x00u8, 0x01, 0x7F, 0x80, 0x81, 0xFE, 0xFF];
    Prop {
        id: "C03",
        spaces: vec![
            space("edges", format!("{} boundary patterns, as value and as code, through every writer, reader and entry point, every truncation and too small sink", e.len()), move |ch| {
                let x = *ch.pick(&e);
                full(ch, x as i64)?;
                full(ch, unzigzag(x))?;
                ch.visit(1);
                Ok(())
            }),
            space("overlong", format!("{} codes in every longer than necessary width and every overflowing body near the limit", e2.len()), move |ch| {
                let x = *ch.pick(&e2);
                for n in 1..=8usize {
                    let mut b = vec![(247 + n) as u8];
                    b.extend(&x.to_be_bytes()[8 - n..]);
                    read(ch, &b)?;
                    b.push(1);
                    read(ch, &b)?;
                }
                ch.visit(15);
                ch.seen(x);
                Ok(())
            }),
            space("contiguous", format!("every value and every code within {} of 0, of 2^63 and of 2^64", top), move |ch| {
                let which = ch.choose(4);
                let c = ch.choose(2048) as u64;
                let step = top / 2048;
                for i in c * step..(c + 1) * step {
                    quick(match which {
                        0 => i,
                        1 => u64::MAX - i,
                        2 => (1 << 63) + i,
                        _ => (1 << 63) - 1 - i,
                    })?;
                }
                ch.visit(step - 1);
                ch.ops(5 * step);
                ch.seen(c);
                Ok(())
            }),
            space("consecutive", format!("every ordered pair of {} boundary and related patterns, one after the other, as values and as codes", pairs.len()), move |ch| {
                let a = *ch.pick(&pairs);
                for &b in &pairs {
                    quick(a)?;
                    quick(b).map_err(|e| format!("after {:#x}: {}", a, e))?;
                    let _ = (signed_encoded_size(a as i64), encode_sign(a as i64), decode_sign(a));
                    ensure_eq!(signed_encoded_size(b as i64), crate::model::ilint_arr(zigzag(b as i64)).1, "signed_encoded_size({}) right after that of {}", b as i64, a as i64);
                }
                ch.visit(2 * pairs.len() as u64 - 1);
                ch.ops(10 * pairs.len() as u64);
                ch.seen(a);
                Ok(())
            }),
            space("patterns", format!("every value and code whose 8 bytes are each one of {:02x?}", pat), move |ch| {
                let n = pat.len();
                let mut hi = 0u64;
                for _ in 0..4 {
                    hi = hi << 8 | *ch.pick(&pat) as u64;
                }
                for i in 0..n.pow(4) {
                    let (mut v, mut k) = (hi, i);
                    for _ in 0..4 {
                        v = v << 8 | pat[k % n] as u64;
                        k /= n;
                    }
                    quick(v)?;
                }
                ch.visit(n.pow(4) as u64 - 1);
                ch.ops(5 * n.pow(4) as u64);
                Ok(())
            }),
        ],
        assumptions: vec!["the mapping is exhaustive on the listed ranges and patterns, not on all 2^64 values".into()],
    }
}
