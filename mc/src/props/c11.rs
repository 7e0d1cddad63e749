//! C11: the 512 MB limit is enforced and memory use is bounded.
use super::dec::*;
use super::docs::*;
use crate::alloc;
use crate::alpha::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::Reader;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::{tag_size_to_usize, ILTagFactory};

/// What decoding may hold besides the 512 MB: proportional to the input.
fn allowed(n: usize) -> i64 {
    MAX as i64 + (1 << 20) + 256 * n as i64
}

/// A source of any length without storage: `head`, then `fill` for ever (or until
/// `left` bytes have been given).
struct Endless<'a> {
    head: &'a [u8],
    p: u64,
    left: u64,
    fill: u8,
}
impl Reader for Endless<'_> {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        let mut b = [0];
        self.read_all(&mut b)?;
        Ok(b[0])
    }
    fn read_all(&mut self, b: &mut [u8]) -> il2_iltags::io::Result<()> {
        if b.len() as u64 > self.left {
            return Err(il2_iltags::io::ErrorKind::EndOfData);
        }
        let mut i = 0;
        while i < b.len() && (self.p as usize) < self.head.len() {
            b[i] = self.head[self.p as usize];
            self.p += 1;
            i += 1;
        }
        b[i..].fill(self.fill);
        self.p += (b.len() - i) as u64;
        self.left -= b.len() as u64;
        Ok(())
    }
}

/// Decodes `b` (fresh and into an existing tag), measuring memory.
/// `Some(p)`: the declaration ending at `p` is above the limit.
fn measured(ch: &Ch, b: &[u8], f: &Fs, over: Option<usize>, exact: bool) -> R {
    for mode in 0..3 {
        let strict = mode == 1;
        let fac = if strict { &f.strict } else { &f.lax };
        let base = alloc::reset();
        let mut r = ByteReader::new(b);
        let mut held = None;
        let (e, peak) = if mode == 2 {
            // Into an existing tag of the same identifier.
            let id = match un_ilint(b) {
                Ok((id, _)) => id,
                Err(_) => continue,
            };
            let mut t = match fac.create_tag(id) {
                Some(t) => t,
                None => continue,
            };
            let e = fac.deserialize_into(&mut r, t.as_mut()).err();
            (e, alloc::peak_since(base))
        } else {
            let e = match fac.deserialize(&mut r) {
                Ok(t) => {
                    held = Some(t);
                    None
                }
                Err(e) => Some(e),
            };
            (e, alloc::peak_since(base))
        };
        ensure!(peak <= allowed(b.len()), "{} (mode {}): {} bytes of memory held for {} bytes of input", hex(b), mode, peak, b.len());
        let c = e.as_ref().map(class);
        drop(held);
        drop(e);
        let left = alloc::live() - base;
        ensure!(left <= 4096, "{} (mode {}): {} bytes of memory not released", hex(b), mode, left);
        if let Some(p) = over {
            let unknown_strict = strict && c == Some(EC::Unknown);
            ensure!(c == Some(EC::TooLarge) || unknown_strict, "{} (mode {}): declares more than 512 MB but the outcome is {:?}", hex(b), mode, c);
            ensure!(r.p <= p, "{} (mode {}): {} bytes read, the declaration ends at {}", hex(b), mode, r.p, p);
        } else if exact {
            ensure!(c != Some(EC::TooLarge), "{} (mode {}): declares no more than 512 MB but is refused as too large", hex(b), mode);
        }
        ch.seen(c.map(|c| c as u64 + 1).unwrap_or(0));
    }
    ch.ops(3);
    Ok(())
}

/// Wraps `b` (whose declaration ends at `p`) in a container of the given kind; the
/// container declares `len` bytes for it.
fn inside(kind: usize, b: &[u8], p: usize, more: u64) -> (Vec<u8>, usize) {
    let head: Vec<u8> = match kind {
        0 => vec![],
        1 => vec![1],
        2 => vec![1, 17, 1, b'k'],
        3 => vec![2, 0],
        _ => vec![2, 17, 0, 0, 17, 1, b'z'],
    };
    let id = [22u8, 21, 30, 21, 30][kind];
    let n = (head.len() + b.len()) as u64 + more;
    let mut o = vec![id];
    o.extend(ilint(n));
    o.extend(&head);
    let q = o.len() + p;
    o.extend(b);
    (o, q)
}

/// Every place of the format with a size subject to the limit: header bytes up to it.
fn places() -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![];
    for id in [16u64, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 29, 30, 31, 32, 0x1F8, u64::MAX] {
        v.push(("tag", ilint(id)));
    }
    v.push(("dictionary key", vec![30, 100, 1, 17]));
    v.push(("second dictionary key", vec![30, 100, 2, 17, 0, 0, 17]));
    v.push(("text dictionary key", vec![31, 100, 1, 17]));
    v.push(("text dictionary value", vec![31, 100, 1, 17, 1, b'a', 17]));
    v.push(("second text dictionary value", vec![31, 100, 2, 17, 0, 17, 0, 17, 1, b'a', 17]));
    v
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = fs();
    let mut spaces = vec![];
    spaces.push(space("conversion", "the size conversion for every 64-bit edge value and every value within 2000 of the limit", |ch| {
        let k = ch.choose(4001) as u64;
        let mut v = vec![MAX - 2000 + k];
        if k == 0 {
            v.extend(u64_edges());
        }
        for x in v {
            let r = tag_size_to_usize(x);
            match r {
                Ok(n) => ensure!(x <= MAX && n as u64 == x, "{} converts to {}", x, n),
                Err(e) => ensure!(x > MAX && class(&e) == EC::TooLarge, "{} is refused with {:?}", x, e),
            }
        }
        ch.op();
        Ok(())
    }));
    let mut sizes: Vec<u64> = (1..=if th { 3000 } else { 300 }).map(|d| MAX + d).collect();
    sizes.extend(u64_edges().into_iter().filter(|x| *x > MAX));
    sizes.sort_unstable();
    sizes.dedup();
    {
        let f = f.clone();
        let sizes = sizes.clone();
        spaces.push(space("over", format!("{} sizes above 512 MB in every size field, alone and nested up to 3 levels in 5 container positions, with and without content: too large, before any content is read", sizes.len()), move |ch| {
            let n = *ch.pick(&sizes);
            let (_, h) = ch.pick(&places()).clone();
            let mut b = h;
            b.extend(ilint(n));
            let p = b.len();
            // A longer form of the size as well.
            for tail in [0usize, 1, 40] {
                let mut c = b.clone();
                c.extend(vec![0u8; tail]);
                measured(ch, &c, &f, Some(p), false)?;
                for k1 in 0..5 {
                    let (d, q) = inside(k1, &c, p, 0);
                    measured(ch, &d, &f, Some(q), false)?;
                    if tail == 1 {
                        for k2 in 0..5 {
                            let (e, q) = inside(k2, &d, q, 0);
                            measured(ch, &e, &f, Some(q), false)?;
                            if ch.tier == Tier::Thorough || n == MAX + 1 {
                                for k3 in 0..5 {
                                    let (g, q) = inside(k3, &e, q, 0);
                                    measured(ch, &g, &f, Some(q), false)?;
                                }
                            }
                        }
                    }
                }
            }
            ch.visit(42);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        spaces.push(
            space("at_most", "512 MB, 512 MB - 1 and 300 MB declared but not supplied in every size field, alone and in containers that declare as much: never too large, memory bounded and released", move |ch| {
                let n = *ch.pick(if ch.tier == Tier::Thorough { &[MAX, MAX - 1, 300 << 20][..] } else { &[MAX][..] });
                let ps = places();
                let (what, h) = ch.pick(&ps).clone();
                let mut b = h.clone();
                b.extend(ilint(n));
                let p = b.len();
                b.extend([0, 0, 0]);
                // The heavy ones only alone.
                let heavy = !matches!(h[0], 20..=25 | 30 | 31) || what != "tag";
                measured(ch, &b, &f, None, true)?;
                if heavy && ch.tier == Tier::Quick {
                    return Ok(());
                }
                for k in 0..5 {
                    let (d, q) = inside(k, &b, p, 0);
                    measured(ch, &d, &f, None, true)?;
                    // The outer one declares more than it holds, up to the limit.
                    let (d, _) = inside(k, &b, p, MAX - d.len() as u64);
                    measured(ch, &d, &f, None, true)?;
                    let (e, _) = inside(0, &d, q, 0);
                    measured(ch, &e, &f, None, true)?;
                }
                ch.visit(15);
                Ok(())
            })
            .workers(6),
        );
    }
    {
        let f = f.clone();
        spaces.push(
            space("supplied", "tags of exactly 512 MB really supplied are decoded; one byte less supplied is an error; memory bounded", move |ch| {
                let id = *ch.pick(&[16u8, 18, 32, 17, 19, 22]);
                let short = ch.flag();
                let mut head = vec![id];
                head.extend(ilint(MAX));
                if id == 22 {
                    // A sequence of one byte array filling it.
                    head.push(16);
                    let inner = MAX - 1 - ilint(MAX - 6).len() as u64;
                    head.extend(ilint(inner));
                    ensure!(ilint(inner).len() == ilint(MAX - 6).len(), "harness: inner length");
                }
                let start = 1 + ilint(MAX).len() as u64;
                let mut r = Endless { head: &head, p: 0, left: start + MAX - short as u64, fill: b'a' };
                let base = alloc::reset();
                let out = f.lax.deserialize(&mut r);
                let peak = alloc::peak_since(base);
                // Supplied 512 MB: at most 512 MB more than a small multiple of it.
                ensure!(peak <= 4 * MAX as i64, "tag {}: {} bytes of memory for 512 MB", id, peak);
                match out {
                    Ok(t) => {
                        ensure!(!short, "tag {} of 512 MB decoded although a byte is missing", id);
                        ensure!(r.left == 0, "tag {}: {} bytes left", id, r.left);
                        ensure_eq!(t.value_size(), MAX, "tag {}", id);
                    }
                    Err(e) => ensure!(short, "tag {} of exactly 512 MB, supplied completely, is refused: {:?}", id, class(&e)),
                }
                ensure!(alloc::live() - base <= 4096, "tag {}: memory not released", id);
                ch.op();
                Ok(())
            })
            .workers(3),
        );
    }
    {
        let f = f.clone();
        let mut counts: Vec<u64> = vec![];
        for k in 20..64 {
            for d in [-1i64, 0, 1] {
                counts.push((1u64 << k).wrapping_add(d as u64));
            }
        }
        counts.extend([MAX - 1, MAX - 5, MAX - 6, MAX - 10, MAX / 8, MAX / 16 + 1, MAX / 3, u64::MAX, u64::MAX - 8, i64::MAX as u64]);
        spaces.push(space("counts", format!("{} element counts of 2^20 and more in every counted container declaring as much as allowed, followed by 0 to 3 elements, alone and nested in every container", counts.len()), move |ch| {
            let n = *ch.pick(&counts);
            let id = *ch.pick(&[20u8, 21, 25, 30, 31]);
            let len = *ch.pick(&[9u64, 1 << 20, MAX / 8, MAX - 20, MAX]);
            let mut b = vec![id];
            b.extend(ilint(len));
            b.extend(ilint(n));
            let p = b.len();
            let one: &[u8] = match id {
                20 | 25 => &[5],
                21 => &[3, 7],
                30 => &[17, 1, b'a', 0],
                _ => &[17, 1, b'a', 17, 1, b'b'],
            };
            for k in 0..4 {
                let mut c = b.clone();
                for _ in 0..k {
                    c.extend(one);
                }
                measured(ch, &c, &f, None, false)?;
                for o in 0..5 {
                    let (d, q) = inside(o, &c, p, 0);
                    measured(ch, &d, &f, None, false)?;
                    let (d, _) = inside(o, &c, p, MAX - d.len() as u64);
                    measured(ch, &d, &f, None, false)?;
                    let (d, _) = inside(1, &d, q, 0);
                    measured(ch, &d, &f, None, false)?;
                }
            }
            ch.visit(4 * 16 - 1);
            Ok(())
        }));
    }
    {
        // Every level claims as much as it may: what the claims make the decoder
        // set aside must not add up.
        let f = f.clone();
        let d = if th { 8 } else { 5 };
        spaces.push(space("claims", format!("1 to {} containers, and 40, in one another of every kind (patterns of period 2), each declaring as many bytes and as many elements as the one around it allows, or a fraction of it", d), move |ch| {
            let n = [1, 2, 3, 4, 5, 6, 7, 8][..d].iter().copied().chain([40]).nth(ch.choose(d + 1)).unwrap();
            let pat = [ch.choose(4), ch.choose(4)];
            // Counts are that fraction of the bytes that are left.
            let part = *ch.pick(&[1u64, 2, 4, 8, 15, 16, 17, 24, 25, 32, 33, 48, 49, 64, 128]);
            let start = *ch.pick(&[MAX, MAX / 2, MAX - MAX / 8]);
            let mut b = vec![];
            let mut left = start;
            for i in 0..n {
                let kind = pat[i % 2];
                b.push([22u8, 21, 30, 21][kind]);
                b.extend(ilint(left));
                let count = std::cmp::max(1, (left - 40) / part);
                let mut used = 20;
                match kind {
                    0 => {}
                    1 => b.extend(ilint(count)),
                    2 => {
                        b.extend(ilint(count));
                        b.extend([17, 1, b'k']);
                        used += 3;
                    }
                    // An element before the nested one.
                    _ => {
                        b.extend(ilint(std::cmp::max(2, count)));
                        b.push(0);
                        used += 1;
                    }
                }
                left -= used;
            }
            // At the bottom nothing, or an array of ILInts or a value as large.
            match ch.choose(4) {
                0 => {}
                1 => {
                    b.push(20);
                    b.extend(ilint(left));
                    b.extend(ilint((left - 20) / part));
                    b.push(5);
                }
                2 => {
                    b.push(31);
                    b.extend(ilint(left));
                    b.extend(ilint((left - 20) / part));
                }
                _ => b.extend([3, 7, 3]),
            }
            measured(ch, &b, &f, None, true)
        }));
    }
    {
        let f = f.clone();
        spaces.push(space("proportional", "containers of up to 65536 one-byte elements, entries, texts and nested containers: memory proportional to the input, all of it released", move |ch| {
            let n = *ch.pick(&[0usize, 1, 10, 100, 1000, 4096, 20000, 65536]);
            let x = match ch.choose(9) {
                0 => t(V::Arr(vec![t(V::Null); n])),
                1 => t(V::Seq(vec![t(V::Null); n])),
                2 => t(V::Ints(vec![1; n])),
                3 => t(V::Oid(vec![u64::MAX; n])),
                4 => t(V::Dict((0..n).map(|i| (format!("{:x}", i), t(V::Null))).collect())),
                5 => t(V::SDict((0..n).map(|i| (format!("{:x}", i), String::new())).collect())),
                6 => t(V::Seq(vec![t(V::Seq(vec![])); n])),
                7 => t(V::Arr(vec![raw(32, &[]); n])),
                _ => chain(n.min(200), &[0, 1, 2], t(V::Str("x".repeat(n))), true),
            };
            let b = enc(&x);
            let base = alloc::reset();
            let r = f.lax.from_bytes(&b).map_err(|e| format!("{:?}", e))?;
            let peak = alloc::peak_since(base);
            ensure!(peak <= (1 << 20) + 256 * b.len() as i64, "{} bytes of memory for {} bytes of input", peak, b.len());
            drop(r);
            ensure!(alloc::live() - base <= 4096, "memory not released");
            // The same cut at the end: nothing stays.
            if !b.is_empty() {
                measured(ch, &b[..b.len() - 1], &f, None, true)?;
            }
            ch.seen(peak as u64);
            ch.op();
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let devs = if th { 3 } else { 2 };
        let all: Vec<T> = docs().into_iter().filter(|x| ilint_sites(x, 0) <= 14).collect();
        spaces.push(
            space("declared", format!("{} documents x up to {} of their identifiers, lengths and counts replaced by large values: memory bounded and released", all.len(), devs), move |ch| {
                let x = ch.pick(&all);
                let b = enc_with(x, &mut |site, v| {
                    const X: [u64; 12] = [0, 20, 21, 248, 65535, 1 << 20, MAX + 1, 1 << 31, 1 << 32, 1 << 48, 1 << 61, u64::MAX];
                    if site == Site::Val {
                        return ilint(v);
                    }
                    match ch.dev(X.len() + 1) {
                        0 => ilint(v),
                        k => ilint(X[k - 1]),
                    }
                });
                measured(ch, &b, &f, None, false)
            })
            .devs(devs),
        );
    }
    spaces.push(space("text_entry", "the text functions with every size from 300 below to 300 above 512 MB", |ch| {
        let n = MAX - 300 + ch.choose(601) as u64;
        if n <= MAX && n != MAX && n != MAX - 1 {
            return Ok(());
        }
        let mut b = vec![17];
        b.extend(ilint(n));
        let p = b.len();
        b.extend([b'a'; 5]);
        let mut r = ByteReader::new(&b);
        let base = alloc::reset();
        let e = deserialize_string_tag_from_value(&mut r).err();
        let peak = alloc::peak_since(base);
        ensure!(peak <= allowed(b.len()), "{} bytes of memory", peak);
        let c = e.as_ref().map(class);
        ensure!((c == Some(EC::TooLarge)) == (n > MAX), "size {}: {:?}", n, c);
        ensure!(n <= MAX || r.p <= p, "size {}: {} bytes read", n, r.p);
        ch.op();
        Ok(())
    }));
    Prop { id: "C11", spaces, assumptions: vec!["memory is the number of bytes requested from the global allocator by the decoding thread".into(), "proportional: at most 256 bytes per byte of input plus 1 MB".into()] }
}
