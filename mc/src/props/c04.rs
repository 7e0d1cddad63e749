//! C04: primitive values are exact big-endian through every entry point.
use crate::alpha::*;
use crate::engine::*;
use crate::env::*;
use crate::model::hex;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization::{ValueDeserializer, ValueSerializer};

trait Prim: Copy + 'static {
    const W: usize;
    const NAME: &'static str;
    /// From the low bits of a pattern.
    fn of(x: u64) -> Self;
    fn bits(self) -> u64;
    fn fr(r: &mut dyn Reader) -> Option<Self>;
    fn fw(self, w: &mut dyn Writer) -> bool;
    /// Trait forms: dyn Reader, concrete, dyn ValueReader; plain and tag traits.
    fn tr(k: usize, b: &[u8]) -> (Option<Self>, usize);
    fn tw(self, k: usize, room: usize) -> (bool, Vec<u8>);
    fn drd(r: &mut dyn Reader, tags: bool) -> Option<Self>;
    fn dwr(self, w: &mut dyn Writer, tags: bool) -> bool;
}
macro_rules! prim {
    ($t:ty, $w:expr, $r:ident, $wr:ident, $of:expr, $bits:expr) => {
        impl Prim for $t {
            const W: usize = $w;
            const NAME: &'static str = stringify!($t);
            #[inline]
            fn of(x: u64) -> Self {
                let f: fn(u64) -> $t = $of;
                f(x)
            }
            #[inline]
            fn bits(self) -> u64 {
                let f: fn($t) -> u64 = $bits;
                f(self)
            }
            #[inline]
            fn fr(r: &mut dyn Reader) -> Option<Self> {
                $r(r).ok()
            }
            #[inline]
            fn fw(self, w: &mut dyn Writer) -> bool {
                $wr(self, w).is_ok()
            }
            fn tr(k: usize, b: &[u8]) -> (Option<Self>, usize) {
                let mut r = ByteArrayReader::new(b);
                let v: Option<$t> = match k {
                    0 => r.read_value().ok(),
                    1 => r.deserialize_value().ok(),
                    2 => (&mut r as &mut dyn ValueReader<$t>).read_value().ok(),
                    _ => (&mut r as &mut dyn ValueReader<$t>).deserialize_value().ok(),
                };
                (v, r.offset())
            }
            fn tw(self, k: usize, room: usize) -> (bool, Vec<u8>) {
                let mut v = vec![0; room];
                let (ok, n) = {
                    let mut w = ByteArrayWriter::new(&mut v);
                    let ok = match k {
                        0 => w.write_value(self).is_ok(),
                        1 => ValueSerializer::<$t>::serialize_value(&mut w, self).is_ok(),
                        2 => (&mut w as &mut dyn ValueWriter<$t>).write_value(self).is_ok(),
                        _ => (&mut w as &mut dyn ValueWriter<$t>).serialize_value(self).is_ok(),
                    };
                    (ok, w.get_offset())
                };
                v.truncate(n);
                (ok, v)
            }
            fn drd(r: &mut dyn Reader, tags: bool) -> Option<Self> {
                if tags { r.deserialize_value().ok() } else { r.read_value().ok() }
            }
            fn dwr(self, w: &mut dyn Writer, tags: bool) -> bool {
                if tags { w.serialize_value(self).is_ok() } else { w.write_value(self).is_ok() }
            }
        }
    };
}
prim!(u8, 1, read_u8, write_u8, |x| x as u8, |v| v as u64);
prim!(i8, 1, read_i8, write_i8, |x| x as u8 as i8, |v| v as u8 as u64);
prim!(u16, 2, read_u16, write_u16, |x| x as u16, |v| v as u64);
prim!(i16, 2, read_i16, write_i16, |x| x as u16 as i16, |v| v as u16 as u64);
prim!(u32, 4, read_u32, write_u32, |x| x as u32, |v| v as u64);
prim!(i32, 4, read_i32, write_i32, |x| x as u32 as i32, |v| v as u32 as u64);
prim!(u64, 8, read_u64, write_u64, |x| x, |v| v);
prim!(i64, 8, read_i64, write_i64, |x| x as i64, |v| v as u64);
prim!(f32, 4, read_f32, write_f32, |x| f32::from_bits(x as u32), |v| v.to_bits() as u64);
prim!(f64, 8, read_f64, write_f64, |x| f64::from_bits(x), |v| v.to_bits());

#[inline]
fn want(x: u64, w: usize) -> ([u8; 8], u64) {
    let mut b = [0u8; 8];
    for i in 0..w {
        b[i] = (x >> (8 * (w - 1 - i))) as u8;
    }
    (b, if w == 8 { x } else { x & ((1u64 << (8 * w)) - 1) })
}

#[inline]
fn quick<P: Prim>(x: u64) -> R {
    let (b, bits) = want(x, P::W);
    let mut buf = [0x5Au8; 9];
    let n = {
        let mut w = ByteArrayWriter::new(&mut buf);
        if !P::of(x).fw(&mut w) {
            return Err(format!("writing {} {:#x} failed", P::NAME, bits));
        }
        w.get_offset()
    };
    if n != P::W || buf[..n] != b[..n] {
        return Err(format!("writing {} {:#x} produced {}, expected {}", P::NAME, bits, hex(&buf[..n]), hex(&b[..P::W])));
    }
    let mut r = ByteArrayReader::new(&buf);
    match P::fr(&mut r) {
        Some(v) if v.bits() == bits && r.offset() == P::W => Ok(()),
        v => Err(format!("reading {} from {} gave {:#x?} ({} bytes used), expected {:#x}", P::NAME, hex(&buf), v.map(|v| v.bits()), r.offset(), bits)),
    }
}

fn full<P: Prim>(ch: &Ch, x: u64) -> R {
    quick::<P>(x)?;
    let (b, bits) = want(x, P::W);
    let b = &b[..P::W];
    ch.say(|| format!("{} {:#x} <-> {}", P::NAME, bits, hex(b)));
    ch.sample(|| format!("{} {:#x} <-> {}", P::NAME, bits, hex(b)));
    let v = P::of(x);
    for k in 0..N_WRITERS {
        for form in 0..3 {
            ch.op();
            let (ok, out) = with_writer(k, P::W, |w| match form {
                0 => v.fw(w),
                1 => v.dwr(w, false),
                _ => v.dwr(w, true),
            });
            ensure!(ok && out == b, "{} {:#x} written through {} (form {}) gives {} ok={}, expected {}", P::NAME, bits, writer_name(k), form, hex(&out), ok, hex(b));
        }
    }
    for k in 0..4 {
        for room in 0..=P::W {
            ch.op();
            let (ok, out) = v.tw(k, room);
            ensure!(ok == (room == P::W), "{} {:#x} into {} bytes (form {}): ok={}", P::NAME, bits, room, k, ok);
            ensure!(!ok || out == b, "{} {:#x} written (form {}) as {}", P::NAME, bits, k, hex(&out));
            ensure!(ok || b.starts_with(&out), "{} {:#x} that does not fit wrote {}", P::NAME, bits, hex(&out));
        }
    }
    let mut src = b.to_vec();
    src.push(0xC3);
    for len in 0..=P::W + 1 {
        let s = &src[..len];
        let exp = if len >= P::W { Some(bits) } else { None };
        for k in 0..N_READERS {
            for form in 0..3 {
                ch.op();
                let (got, used) = with_reader(k, s, |r| match form {
                    0 => P::fr(r),
                    1 => P::drd(r, false),
                    _ => P::drd(r, true),
                });
                ensure!(got.map(|v| v.bits()) == exp, "{} read from {} through {} (form {}) = {:#x?}, expected {:#x?}", P::NAME, hex(s), reader_name(k), form, got.map(|v| v.bits()), exp);
                ensure!(exp.is_none() || used == P::W, "{} read through {} used {} bytes", P::NAME, reader_name(k), used);
            }
        }
        for k in 0..4 {
            ch.op();
            let (got, used) = P::tr(k, s);
            ensure!(got.map(|v| v.bits()) == exp, "{} read from {} (trait form {}) = {:#x?}, expected {:#x?}", P::NAME, hex(s), k, got.map(|v| v.bits()), exp);
            ensure!(exp.is_none() || used == P::W, "{} read (trait form {}) used {} bytes", P::NAME, k, used);
        }
    }
    ch.seen(bits ^ P::W as u64);
    ch.flush_outcome();
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let e = u64_edges();
    let top32: u64 = if th { 1 << 32 } else { 1 << 26 };
    let pat: Vec<u8> = if th { vec![0x00, 0x01, 0x7F, 0x80, 0x81, 0xF0, 0xFE, 0xFF] } else { vec![0x00, 0x01, 0x7F, 0x80, 0xF0, 0xFF] };
    Prop {
        id: "C04",
        spaces: vec![
            space("small_widths", "every 8 and 16-bit value of every integer type: every entry point, writer kind, reader kind, shorter source and smaller sink", |ch| {
                let hi = ch.choose(256) as u64;
                let part = ch.choose(16) as u64;
                for lo in part * 16..part * 16 + 16 {
                    let x = hi << 8 | lo;
                    full::<u16>(ch, x)?;
                    full::<i16>(ch, x)?;
                    if hi == 0 {
                        full::<u8>(ch, x)?;
                        full::<i8>(ch, x)?;
                    }
                }
                ch.visit(31);
                Ok(())
            }),
            space("edges", format!("{} boundary patterns (high half first and low half first) in the 6 wider types, every entry point, writer, reader, shorter source and smaller sink", e.len()), move |ch| {
                let x = *ch.pick(&e);
                for y in [x, x.rotate_left(32), x.swap_bytes()] {
                    full::<u32>(ch, y)?;
                    full::<i32>(ch, y)?;
                    full::<f32>(ch, y)?;
                    full::<u64>(ch, y)?;
                    full::<i64>(ch, y)?;
                    full::<f64>(ch, y)?;
                }
                ch.visit(17);
                Ok(())
            }),
            space("floats", "every sign and exponent of both float widths with 8 mantissas (zero, one, quiet and signalling NaN payloads, all ones)", |ch| {
                let se = ch.choose(4096) as u64;
                for m in [0u64, 1, 2, 0x7_FFFF_FFFF_FFFF, 0x8_0000_0000_0000, 0x8_0000_0000_0001, 0xA_5A5A_5A5A_5A5A, 0xF_FFFF_FFFF_FFFF] {
                    full::<f64>(ch, se << 52 | m)?;
                    if se < 512 {
                        full::<f32>(ch, se << 23 | m >> 29)?;
                        full::<f32>(ch, se << 23 | (m & 0x7F_FFFF))?;
                    }
                }
                ch.visit(7);
                Ok(())
            }),
            space("wide32", format!("every 32-bit pattern below {:#x} and its byte-reversed form, as u32, i32 and f32", top32), move |ch| {
                let c = ch.choose(4096) as u64;
                let step = top32 / 4096;
                for x in c * step..(c + 1) * step {
                    quick::<u32>(x)?;
                    quick::<i32>(x)?;
                    quick::<f32>(x)?;
                    let y = (x as u32).swap_bytes() as u64;
                    quick::<u32>(y)?;
                    quick::<i32>(y)?;
                    quick::<f32>(y)?;
                }
                ch.visit(6 * step - 1);
                ch.ops(12 * step);
                Ok(())
            }),
            space("wide64", format!("every 64-bit pattern whose bytes are each one of {:02x?}, as u64, i64 and f64", pat), move |ch| {
                let n = pat.len();
                let mut hi = 0u64;
                for _ in 0..4 {
                    hi = hi << 8 | *ch.pick(&pat) as u64;
                }
                for i in 0..n.pow(4) {
                    let (mut v, mut k) = (hi, i);
                    for _ in 0..4 {
                        v = v << 8 | pat[k % n] as u64;
                        k /= n;
                    }
                    quick::<u64>(v)?;
                    quick::<i64>(v)?;
                    quick::<f64>(v)?;
                }
                ch.visit(3 * n.pow(4) as u64 - 1);
                ch.ops(6 * n.pow(4) as u64);
                Ok(())
            }),
        ],
        assumptions: vec!["64-bit patterns outside the alphabet are not executed; the quick tier does not execute every 32-bit pattern (the thorough one does)".into()],
    }
}
