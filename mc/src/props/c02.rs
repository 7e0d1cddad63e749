//! C02: ILInt decoding accepts exactly the valid encodings and consumes exactly them.
use crate::alpha::*;
use crate::engine::*;
use crate::env::*;
use crate::model::{hex, ilint, un_ilint};
use crate::sup::Prop;
use il2_iltags::ilint::*;
use il2_iltags::io::array::*;
use il2_iltags::io::data::ILIntReader;
use il2_iltags::io::Reader;
use il2_iltags::tags::serialization::ILIntDeserializer;

#[inline]
fn quick(b: &[u8]) -> R {
    let want = un_ilint(b).ok();
    let got = decode_from_bytes(b).ok();
    if got != want {
        return Err(format!("decode_from_bytes({}) = {:?}, expected {:?}", hex(b), got, want));
    }
    let mut r = ByteArrayReader::new(b);
    let got = decode(&mut r).ok();
    if got != want.map(|x| x.0) {
        return Err(format!("decode({}) = {:?}, expected {:?}", hex(b), got, want));
    }
    if let Some((_, n)) = want {
        if r.offset() != n {
            return Err(format!("decode({}) used {} bytes, expected {}", hex(b), r.offset(), n));
        }
    }
    if !b.is_empty() && b[0] >= 0xF8 {
        let n = b[0] as usize - 247;
        if b.len() > n {
            let got = decode_body(&b[1..=n]).ok();
            if got != want.map(|x| x.0) {
                return Err(format!("decode_body({}) = {:?}, expected {:?}", hex(&b[1..=n]), got, want));
            }
        }
    }
    Ok(())
}

fn full(ch: &Ch, b: &[u8]) -> R {
    quick(b)?;
    let want = un_ilint(b).ok();
    ch.say(|| format!("{} must decode as {:?}", hex(b), want));
    ch.sample(|| format!("{} -> {:?}", hex(b), want));
    for k in 0..N_READERS {
        macro_rules! e {
            ($name:expr, $f:expr) => {{
                ch.op();
                let f: fn(&mut dyn Reader) -> Option<u64> = $f;
                let (got, used) = with_reader(k, b, f);
                ensure!(got == want.map(|x| x.0), "{} of {} through {} = {:?}, expected {:?}", $name, hex(b), reader_name(k), got, want);
                if let Some((_, n)) = want {
                    ensure!(used == n, "{} of {} through {} used {} bytes, expected {}", $name, hex(b), reader_name(k), used, n);
                }
            }};
        }
        e!("decode", |r| decode(r).ok());
        e!("read_ilint", |r| r.read_ilint().ok());
        e!("data::read_ilint", |r| il2_iltags::io::data::read_ilint(r).ok());
        e!("deserialize_ilint", |r| r.deserialize_ilint().ok());
        e!("legacy deserialize_ilint", |r| il2_iltags::tags::deserialize_ilint(r).ok());
    }
    macro_rules! c {
        ($name:expr, $f:expr) => {{
            ch.op();
            let f: fn(&mut VecReader) -> Option<u64> = $f;
            let mut r = VecReader::new(b);
            let got = f(&mut r);
            ensure!(got == want.map(|x| x.0), "{} of {} = {:?}, expected {:?}", $name, hex(b), got, want);
            if let Some((_, n)) = want {
                ensure!(r.offset() == n, "{} of {} used {} bytes, expected {}", $name, hex(b), r.offset(), n);
            }
        }};
    }
    c!("concrete read_ilint", |r| r.read_ilint().ok());
    c!("concrete deserialize_ilint", |r| r.deserialize_ilint().ok());
    c!("dyn ILIntReader read_ilint", |r| (r as &mut dyn ILIntReader).read_ilint().ok());
    c!("dyn ILIntReader deserialize_ilint", |r| (r as &mut dyn ILIntReader).deserialize_ilint().ok());
    ch.seen(want.map(|x| x.1 as u64).unwrap_or(99));
    ch.seen(b.len() as u64);
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let top = if th { 4 } else { 3 };
    let pat: Vec<u8> = if th { vec![0x00, 0x01, 0x07, 0x08, 0x7F, 0x80, 0xF7, 0xF8, 0xFF] } else { vec![0x00, 0x01, 0x07, 0x08, 0x80, 0xF8, 0xFF] };
    let np = pat.len();
    let p2 = pat.clone();
    let edges = u64_edges();
    let e2 = edges.clone();
    // Every value in its shortest form, some in every width.
    let mut forms: Vec<Vec<u8>> = u64_pairs().into_iter().map(ilint).collect();
    for v in u64_few().into_iter().chain([0x1234, 0x3412, 0x123456, 0x563412]) {
        for n in 1..=8usize {
            let x = v & (u64::MAX >> (64 - 8 * n));
            let mut b = vec![(247 + n) as u8];
            b.extend(&x.to_be_bytes()[8 - n..]);
            forms.push(b);
        }
    }
    forms.sort();
    forms.dedup();
    let mut heads: Vec<Vec<u8>> = vec![];
    for n in 1..=8usize {
        for x in [0u64, 1, 0x0102030405060708, u64::MAX, u64::MAX - 247, u64::MAX - 248] {
            let mut b = vec![(247 + n) as u8];
            b.extend(&x.to_be_bytes()[8 - n..]);
            for cut in 1..=b.len() {
                heads.push(b[..cut].to_vec());
            }
        }
    }
    heads.extend([vec![], vec![0], vec![1], vec![0x7F], vec![0xF7]]);
    heads.sort();
    heads.dedup();
    let mut lens: Vec<usize> = (0..=600).collect();
    for k in 10..=if th { 24 } else { 22 } {
        lens.extend((1usize << k) - 3..=(1 << k) + 11);
    }
    for k in [2usize, 3, 5, 7, 15, 17] {
        lens.extend(65536 * k - 1..=65536 * k + 10);
    }
    lens.sort_unstable();
    lens.dedup();
    let win: u64 = if th { 1 << 24 } else { 1 << 19 };
    Prop {
        id: "C02",
        spaces: vec![
            space("cut_and_tail", format!("{} boundary values x every longer than necessary width x every truncation x tails of 0, 1 and 9 bytes x {} readers x 9 entry points", edges.len(), N_READERS), move |ch| {
                let v = *ch.pick(&edges);
                let n = ch.choose(9);
                let b = if n == 0 {
                    ilint(v)
                } else {
                    // Every body width that can hold the value.
                    if v < 248 || (n < 8 && (v - 248) >> (8 * n) != 0) {
                        return Ok(());
                    }
                    crate::model::ilint_wide(v, n)
                };
                for cut in 0..=b.len() {
                    full(ch, &b[..cut])?;
                }
                for t in [vec![0x00], vec![0xFF], vec![0xFF; 9]] {
                    let mut x = b.clone();
                    x.extend(t);
                    full(ch, &x)?;
                }
                ch.visit(b.len() as u64 + 3);
                Ok(())
            }),
            space("overflowing", "every header-9 body within 8192 of the largest valid one and of the largest possible one, and each body value of 2^64-1-248+d bit pattern, all entry points", move |ch| {
                let which = ch.flag();
                let c = ch.choose(256) as u64;
                for i in 0..64u64 {
                    let d = c * 64 + i;
                    let body = if which { u64::MAX - d } else { (0xFFFF_FFFF_FFFF_FF07u64 - 8192).wrapping_add(d) };
                    let mut b = vec![0xFF];
                    b.extend(body.to_be_bytes());
                    full(ch, &b)?;
                    b.push(0);
                    quick(&b)?;
                }
                ch.visit(63);
                Ok(())
            }),
            space("short", format!("every byte sequence of up to {} bytes", top), move |ch| {
                let n = ch.choose(top + 1);
                if n == 0 {
                    return full(ch, &[]);
                }
                let mut b = vec![0u8; n];
                b[0] = ch.choose(256) as u8;
                if n == 1 {
                    return full(ch, &b);
                }
                b[1] = ch.choose(256) as u8;
                if n == 2 {
                    ch.ops(3);
                    return quick(&b);
                }
                let total = 256u64.pow(n as u32 - 2);
                for i in 0..total {
                    b[2] = i as u8;
                    if n == 4 {
                        b[3] = (i >> 8) as u8;
                    }
                    quick(&b)?;
                }
                ch.visit(total - 1);
                ch.ops(3 * total);
                ch.seen(b[0] as u64);
                Ok(())
            }),
            space("consecutive", format!("every ordered pair of {} encodings (boundary and related values in every width), one decoded after the other", forms.len()), move |ch| {
                let a = ch.pick(&forms).as_slice();
                for b in &forms {
                    quick(a)?;
                    quick(b).map_err(|e| format!("after {}: {}", hex(a), e))?;
                }
                ch.visit(2 * forms.len() as u64 - 1);
                ch.ops(6 * forms.len() as u64);
                ch.seen_bytes(a);
                Ok(())
            }),
            space("long", format!("{} forms (valid, overlong, overflowing, cut) at the beginning of slices of {} lengths up to {}, followed by zeros or by 0xFF; bodies of the same lengths are never acceptable", heads.len(), lens.len(), lens[lens.len() - 1]), move |ch| {
                let n = *ch.pick(&lens);
                let f = if ch.flag() { 0xFFu8 } else { 0 };
                let mut b = vec![f; n];
                for h in &heads {
                    if h.len() > n {
                        continue;
                    }
                    b[..h.len()].copy_from_slice(h);
                    let want = un_ilint(&b[..n.min(9)]).ok();
                    ch.say(|| format!("{} and {} more bytes {:02x}", hex(h), n - h.len(), f));
                    let got = decode_from_bytes(&b).ok();
                    ensure!(got == want, "decode_from_bytes({} and {} more bytes {:02x}) = {:?}, expected {:?}", hex(h), n - h.len(), f, got, want);
                    let mut r = ByteArrayReader::new(&b);
                    let got = decode(&mut r).ok();
                    ensure!(got == want.map(|x| x.0) && want.is_none_or(|x| x.1 == r.offset()), "decode({} and {} more bytes {:02x}) = {:?} using {}, expected {:?}", hex(h), n - h.len(), f, got, r.offset(), want);
                    if n > 8 {
                        let got = decode_body(&b).ok();
                        ensure!(got.is_none(), "decode_body of {} bytes ({}..) = {:?}", n, hex(h), got);
                    }
                    b[..h.len()].fill(f);
                }
                ch.visit(heads.len() as u64 - 1);
                ch.ops(3 * heads.len() as u64);
                ch.seen(n as u64);
                Ok(())
            }),
            space("bodies", format!("every header 0xF8..0xFF x every body whose bytes are each one of {:02x?}, complete, cut by one, and followed by a byte", pat), move |ch| {
                let n = 1 + ch.choose(8);
                let lead = n.min(3);
                let mut b = vec![(247 + n) as u8];
                for _ in 0..lead {
                    b.push(*ch.pick(&pat));
                }
                b.resize(n + 1, 0);
                let rest = n - lead;
                let total = np.pow(rest as u32);
                for i in 0..total {
                    let mut k = i;
                    for j in 0..rest {
                        b[1 + lead + j] = pat[k % np];
                        k /= np;
                    }
                    quick(&b)?;
                    quick(&b[..n])?;
                    if i % 64 == 0 {
                        b.push(0xAA);
                        quick(&b)?;
                        b.pop();
                    }
                }
                ch.visit(2 * total as u64 - 1);
                ch.ops(5 * total as u64);
                ch.seen_bytes(&b[..1 + lead]);
                Ok(())
            }),
            space("windows", format!("every body value within {} of 0 and of the limit, in every width that can hold it", win), move |ch| {
                let n = 1 + ch.choose(8);
                let c = ch.choose(128) as u64;
                let hi = ch.flag();
                let max = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
                let step = win / 128;
                for i in c * step..(c + 1) * step {
                    if i > max {
                        break;
                    }
                    let v = if hi { max - i } else { i };
                    let mut b = [0u8; 9];
                    b[0] = (247 + n) as u8;
                    b[1..=n].copy_from_slice(&v.to_be_bytes()[8 - n..]);
                    quick(&b[..=n])?;
                }
                ch.visit(step - 1);
                ch.ops(3 * step);
                Ok(())
            }),
            space("body_lengths", format!("bodies of 0..=12 bytes: {} contents each; only 1..=8 are acceptable", e2.len()), move |ch| {
                let n = ch.choose(13);
                let v = *ch.pick(&e2);
                let mut b = vec![0u8; 12];
                b[4..].copy_from_slice(&v.to_be_bytes());
                let body = &b[12 - n..];
                ch.op();
                let got = decode_body(body).ok();
                let want = if n == 0 || n > 8 {
                    None
                } else {
                    let x = body.iter().fold(0u128, |a, x| a * 256 + *x as u128) + 248;
                    if x > u64::MAX as u128 { None } else { Some(x as u64) }
                };
                ensure!(got == want, "decode_body({}) = {:?}, expected {:?}", hex(body), got, want);
                ch.seen(got.is_some() as u64 + 2 * n as u64);
                Ok(())
            }),
            space("pattern_tails", "every header x 3-byte bodies and tails over the alphabet through every reader", move |ch| {
                let h = ch.choose(256) as u8;
                let n = ch.choose(5);
                let mut b = vec![h];
                for _ in 0..n.min(2) {
                    b.push(*ch.pick(&p2));
                }
                while b.len() < n + 1 {
                    b.push(0xFE);
                }
                full(ch, &b)
            }),
        ],
        assumptions: vec!["body bytes outside the alphabets and windows are not executed; bodies are interpreted positionally".into()],
    }
}
