//! Decoding compared with the model: shared by several properties.
use super::docs::*;
use crate::bridge::*;
use crate::engine::*;
use crate::model::*;
use il2_iltags::io::array::*;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::ILTagFactory;
use std::sync::Arc;

pub struct Fs {
    pub lax: ILStandardTagFactory,
    pub strict: ILStandardTagFactory,
    pub own: bool,
}
pub fn fs() -> Arc<Fs> {
    Arc::new(Fs { lax: ILStandardTagFactory::new(false), strict: ILStandardTagFactory::new(true), own: false })
}
/// The standard types also under identifiers of the user.
pub fn own_fs() -> Arc<Fs> {
    Arc::new(Fs { lax: own_factory(false), strict: own_factory(true), own: true })
}

/// Compares one decode with the model, in one mode.
pub fn agree(b: &[u8], f: &ILStandardTagFactory, strict: bool, own: bool) -> Result<bool, String> {
    let want = dec_with(b, strict, own);
    let mut r = ByteArrayReader::new(b);
    let got = f.deserialize(&mut r);
    let mode = if strict { "strict" } else { "non-strict" };
    match (&got, &want) {
        (Ok(tag), Ok((x, n))) => {
            let y = extract(tag.as_ref())?;
            if y != *x {
                return Err(format!("{} ({}) decodes as {:?}, expected {:?}", hex(b), mode, y, x));
            }
            if r.offset() != *n {
                return Err(format!("{} ({}): {} bytes used, expected {}", hex(b), mode, r.offset(), n));
            }
            Ok(true)
        }
        (Err(_), Err(_)) => Ok(false),
        (Ok(tag), Err(e)) => Err(format!("{} ({}) is accepted as {:?} but it is not well-formed ({:?})", hex(b), mode, extract(tag.as_ref()), e)),
        (Err(e), Ok((x, _))) => Err(format!("{} ({}) is refused ({:?}) but it is {:?}", hex(b), mode, e, x)),
    }
}
pub const HEAVY: u64 = 1 << 20;

pub fn both(ch: &Ch, b: &[u8], f: &Fs) -> R {
    if heavy(b, HEAVY) {
        return Ok(());
    }
    both_any(ch, b, f)
}
/// The same for documents built here, whose bytes are known not to be lengths.
pub fn both_any(ch: &Ch, b: &[u8], f: &Fs) -> R {
    let a = agree(b, &f.lax, false, f.own)?;
    let s = agree(b, &f.strict, true, f.own)?;
    ch.ops(2);
    ch.say(|| format!("{}: non-strict {} strict {}", hex(b), a, s));
    ch.sample(|| format!("{} -> non-strict {} strict {}", hex(b), a, s));
    ch.seen(a as u64 * 2 + s as u64);
    if a {
        ch.seen_bytes(b);
    }
    // The complete form: the same unless something follows.
    if a {
        let n = dec_with(b, false, f.own).map_err(|_| "harness: model")?.1;
        let ok = f.lax.from_bytes(b).is_ok();
        ensure!(ok == (n == b.len()), "from_bytes({}) succeeds: {}, tag occupies {} of {} bytes", hex(b), ok, n, b.len());
    }
    Ok(())
}

/// Every single-place change of a document.
pub fn mutate(ch: &Ch, doc: &[u8], f: &mut dyn FnMut(&[u8]) -> R) -> R {
    let n = doc.len();
    let at = ch.choose(n + 1);
    let mut cases = 0u64;
    let mut go = |b: &[u8]| -> R {
        cases += 1;
        f(b)
    };
    // Cut here.
    go(&doc[..at])?;
    for v in 0..=255u8 {
        let mut b = doc[..at].to_vec();
        b.push(v);
        b.extend(&doc[at..]);
        go(&b)?;
        if at < n {
            let mut b = doc.to_vec();
            b[at] = v;
            go(&b)?;
        }
    }
    if at < n {
        for k in 1..=3.min(n - at) {
            let mut b = doc[..at].to_vec();
            b.extend(&doc[at + k..]);
            go(&b)?;
            let mut b = doc.to_vec();
            b.splice(at..at, doc[at..at + k].to_vec());
            go(&b)?;
        }
        if at + 1 < n {
            let mut b = doc.to_vec();
            b.swap(at, at + 1);
            go(&b)?;
        }
    }
    ch.visit(cases - 1);
    Ok(())
}

pub const SYM: [u8; 22] = [0x00, 0x01, 0x02, 0x03, 0x04, 0x08, 0x0A, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x14, 0x15, 0x16, 0x17, 0x1A, 0x1E, 0x1F, 0x20, 0xF8, 0xFF];

/// Lengths that cover more or less than the contents, for values of every size.
pub fn past_contents(tier: Tier, f: Arc<Fs>) -> Space {
    let z = sizes(if tier == Tier::Thorough { 100_000 } else { 70_000 });
    space("past_contents", format!("every variable-length type and every container with {} sizes and counts up to {}, its length longer by 1 to 9 with as many zeros, ones, tags or 0xFF bytes behind the contents, or shorter by 1 to 3; alone and inside a sequence", z.len(), z[z.len() - 1]), move |ch| {
        let n = *ch.pick(&z);
        let kind = ch.choose(N_SIZED);
        let x = sized(kind, n);
        let v = enc_value(&x.v);
        let mut cases = 0;
        let mut go = |v: &[u8], d: i64| -> R {
            let mut b = ilint(x.id);
            b.extend(ilint((v.len() as i64 + d) as u64));
            b.extend(v);
            cases += 1;
            both_any(ch, &b, &f)?;
            if n < 3000 {
                cases += 1;
                both_any(ch, &frame(22, &b), &f)?;
            }
            Ok(())
        };
        for k in 1..=9usize {
            for fill in 0..4 {
                if n > 600 && fill != k % 4 && k != 1 {
                    continue;
                }
                let tail: Vec<u8> = match fill {
                    0 => vec![0; k],
                    1 => vec![0xFF; k],
                    2 => vec![1; k],
                    _ => [3u8, 9].iter().cycle().take(k).copied().collect(),
                };
                go(&[&v[..], &tail].concat(), 0)?;
            }
        }
        for k in 1..=3.min(v.len()) {
            go(&v[..v.len() - k], 0)?;
            go(&v, -(k as i64))?;
        }
        ch.visit(cases);
        Ok(())
    })
}
