//! C01: ILInt encoding is canonical, shortest and reversible.
use crate::alpha::*;
use crate::engine::*;
use crate::model::{hex, ilint, ilint_arr};
use crate::sup::Prop;
use il2_iltags::ilint::*;
use il2_iltags::io::array::*;
use il2_iltags::io::data::{ILIntReader, ILIntWriter};
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization::{ILIntDeserializer, ILIntSerializer};

/// Fast form for the sweeps: encode, size, decode through two paths.
#[inline]
fn quick(v: u64) -> R {
    let (want, n) = ilint_arr(v);
    ensure_eq!(encoded_size(v), n, "encoded_size({:#x})", v);
    let mut buf = [0xA5u8; 12];
    let used = {
        let mut w = ByteArrayWriter::new(&mut buf);
        ensure!(encode(v, &mut w).is_ok(), "encode({:#x}) failed", v);
        w.get_offset()
    };
    if used != n || buf[..n] != want[..n] {
        return Err(format!("encode({:#x}) wrote {} expected {}", v, hex(&buf[..used.min(12)]), hex(&want[..n])));
    }
    match decode_from_bytes(&buf[..n]) {
        Ok((x, k)) if x == v && k == n => {}
        r => return Err(format!("decode_from_bytes({}) = {:?}, expected ({:#x}, {})", hex(&want[..n]), r, v, n)),
    }
    let mut r = ByteArrayReader::new(&buf[..n]);
    match decode(&mut r) {
        Ok(x) if x == v && r.available() == 0 => Ok(()),
        r => Err(format!("decode({}) = {:?}, expected {:#x}", hex(&want[..n]), r, v)),
    }
}

/// Complete form: every sink and every decoding entry point.
fn full(ch: &Ch, v: u64) -> R {
    let want = ilint(v);
    let n = want.len();
    ch.say(|| format!("value {:#x} must encode as {}", v, hex(&want)));
    ch.sample(|| format!("{:#x} <-> {}", v, hex(&want)));
    quick(v)?;
    ensure_eq!(decoded_size(want[0]), n, "decoded_size({:#x})", want[0]);
    let mut outs: Vec<(&str, Vec<u8>)> = vec![];
    let mut w = VecWriter::new();
    ensure!(encode(v, &mut w).is_ok(), "encode into VecWriter");
    outs.push(("encode", w.into()));
    let mut w = VecWriter::new();
    ensure!(w.write_ilint(v).is_ok(), "write_ilint");
    outs.push(("write_ilint", w.into()));
    let mut w = VecWriter::new();
    ensure!((w.as_writer()).write_ilint(v).is_ok(), "dyn write_ilint");
    outs.push(("dyn write_ilint", w.into()));
    let mut w = VecWriter::new();
    ensure!(w.serialize_ilint(v).is_ok(), "serialize_ilint");
    outs.push(("serialize_ilint", w.into()));
    let mut w = VecWriter::new();
    ensure!((w.as_writer()).serialize_ilint(v).is_ok(), "dyn serialize_ilint");
    outs.push(("dyn serialize_ilint", w.into()));
    let mut w = VecWriter::new();
    ensure!((&mut w as &mut dyn ILIntWriter).serialize_ilint(v).is_ok(), "dyn ILIntWriter serialize_ilint");
    outs.push(("dyn ILIntWriter", w.into()));
    let mut w = VecWriter::new();
    ensure!(il2_iltags::tags::serialize_ilint(v, &mut w).is_ok(), "legacy serialize_ilint");
    outs.push(("legacy serialize_ilint", w.into()));
    let mut w = VecWriter::new();
    ensure!(il2_iltags::io::data::write_ilint(v, &mut w).is_ok(), "data::write_ilint");
    outs.push(("data::write_ilint", w.into()));
    let mut c = std::io::Cursor::new(Vec::new());
    ensure!(encode(v, &mut c).is_ok(), "encode into Cursor");
    outs.push(("cursor", c.into_inner()));
    for (k, o) in &outs {
        ch.op();
        ensure!(*o == want, "{}({:#x}) wrote {} expected {}", k, v, hex(o), hex(&want));
    }
    // A sink that is too small takes nothing more than fits, and says so.
    for cap in 0..=n {
        ch.op();
        let mut b = vec![0u8; cap];
        let ok = encode(v, &mut ByteArrayWriter::new(&mut b)).is_ok();
        ensure_eq!(ok, cap == n, "encode({:#x}) into {} bytes succeeds", v, cap);
    }
    // Decoding entry points.
    let mut tail = want.clone();
    tail.extend([0xFF, 0x00]);
    macro_rules! dec {
        ($name:expr, $e:expr) => {{
            ch.op();
            let mut r = ByteArrayReader::new(&tail);
            let f: fn(&mut ByteArrayReader) -> Option<u64> = $e;
            let got = f(&mut r);
            ensure_eq!(got, Some(v), "{} of {}", $name, hex(&tail));
            ensure_eq!(r.offset(), n, "{} of {}: bytes used", $name, hex(&tail));
        }};
    }
    dec!("decode", |r| decode(r).ok());
    dec!("read_ilint", |r| r.read_ilint().ok());
    dec!("dyn read_ilint", |r| (r as &mut dyn Reader).read_ilint().ok());
    dec!("deserialize_ilint", |r| r.deserialize_ilint().ok());
    dec!("dyn deserialize_ilint", |r| (r as &mut dyn Reader).deserialize_ilint().ok());
    dec!("dyn ILIntReader", |r| (r as &mut dyn ILIntReader).deserialize_ilint().ok());
    dec!("data::read_ilint", |r| il2_iltags::io::data::read_ilint(r).ok());
    dec!("legacy deserialize_ilint", |r| il2_iltags::tags::deserialize_ilint(r).ok());
    ch.op();
    ensure_eq!(decode_from_bytes(&tail).ok(), Some((v, n)), "decode_from_bytes of {}", hex(&tail));
    if n > 1 {
        ch.op();
        ensure_eq!(decode_body(&want[1..]).ok(), Some(v), "decode_body of {}", hex(&want[1..]));
    }
    ch.seen(n as u64);
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let thorough = tier == Tier::Thorough;
    let edges = u64_edges();
    let ne = edges.len();
    let top: u64 = if thorough { 1 << 32 } else { 1 << 26 };
    let chunk: u64 = 1 << 14;
    let win: u64 = if thorough { 1 << 20 } else { 1 << 18 };
    let pat: Vec<u8> = if thorough {
        vec![0x00, 0x01, 0x07, 0x08, 0x7F, 0x80, 0xF7, 0xF8, 0xFF]
    } else {
        vec![0x00, 0x01, 0x07, 0x08, 0x80, 0xF8, 0xFF]
    };
    let np = pat.len();
    let pairs = u64_pairs();
    Prop {
        id: "C01",
        spaces: vec![
            space("edges", format!("{} boundary values x every sink (9) and size-limited sink x every decoding entry point (10)", ne), move |ch| {
                full(ch, *ch.pick(&edges))
            }),
            space("windows", format!("every value within {} of each ILInt size boundary, of 2^63 and of 2^64-1", win), move |ch| {
                let k = ch.choose(10);
                let c = ch.choose((2 * win / 1024) as usize) as u64;
                let mid: u64 = match k {
                    0 => 0xF8,
                    8 => 1 << 63,
                    9 => u64::MAX,
                    n => (1u64 << (8 * n)) + 0xF7,
                };
                let lo = mid.wrapping_sub(win).wrapping_add(c * 1024);
                for i in 0..1024 {
                    quick(lo.wrapping_add(i))?;
                }
                ch.visit(1023);
                ch.ops(3 * 1024);
                ch.seen(lo);
                Ok(())
            }),
            space("consecutive", format!("every ordered pair of {} boundary and related values, one after the other: the second is not affected by the first", pairs.len()), move |ch| {
                let a = *ch.pick(&pairs);
                for &b in &pairs {
                    quick(a)?;
                    quick(b).map_err(|e| format!("after {:#x}: {}", a, e))?;
                    // Each operation of the second right after the same one of the first.
                    let _ = encoded_size(a);
                    ensure_eq!(encoded_size(b), ilint_arr(b).1, "encoded_size({:#x}) right after that of {:#x}", b, a);
                }
                ch.visit(2 * pairs.len() as u64 - 1);
                ch.ops(6 * pairs.len() as u64);
                ch.seen(a);
                Ok(())
            }),
            space("patterns", format!("every value whose 8 bytes are each one of {:02x?}", pat), move |ch| {
                let mut hi = 0u64;
                for _ in 0..4 {
                    hi = hi << 8 | *ch.pick(&pat) as u64;
                }
                for i in 0..np.pow(4) {
                    let (mut v, mut k) = (hi, i);
                    for _ in 0..4 {
                        v = v << 8 | pat[k % np] as u64;
                        k /= np;
                    }
                    quick(v)?;
                }
                ch.visit(np.pow(4) as u64 - 1);
                ch.ops(3 * np.pow(4) as u64);
                ch.seen(hi);
                Ok(())
            }),
            space("contiguous", format!("every value from 0 to {}", top - 1), move |ch| {
                let c = ch.choose((top / chunk) as usize) as u64;
                for v in c * chunk..(c + 1) * chunk {
                    quick(v)?;
                }
                ch.visit(chunk - 1);
                ch.ops(3 * chunk);
                ch.seen(c);
                Ok(())
            }),
        ],
        assumptions: vec!["values outside the listed windows, patterns and range are not executed; the code branches only on the size boundaries all of which are inside".into()],
    }
}
