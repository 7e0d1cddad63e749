//! C10: a tag occupies exactly its declared bytes.
use super::dec::*;
use super::docs::*;
use super::prims::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::{self, ILTag, ILTagCreator, ILTagFactory};

/// Where the tag at the start of `b` ends according to its header (whatever its
/// content), at most the end of the data.
fn declared_end(b: &[u8]) -> usize {
    let (id, n) = match un_ilint(b) {
        Ok(x) => x,
        Err(_) => return b.len(),
    };
    let size = match id {
        0 | 15 => 0,
        1..=3 => 1,
        4 | 5 => 2,
        6 | 7 | 11 => 4,
        8 | 9 | 12 => 8,
        13 => 16,
        10 | 14 => match b.get(n) {
            Some(h) if *h >= 248 => *h as u64 - 246,
            _ => 1,
        },
        _ => match un_ilint(&b[n..]) {
            Ok((l, m)) => (m as u64).saturating_add(l),
            Err(_) => return b.len(),
        },
    };
    (n as u64).saturating_add(size).min(b.len() as u64) as usize
}

/// Decodes the tags of `b` one by one and compares each with `want`; after the last
/// one, nothing is left and decoding fails.
fn stream(ch: &Ch, kind: usize, b: &[u8], want: &[&T], f: &Fs) -> R {
    let (r, used) = with_reader(kind, b, |r| -> R {
        for (i, x) in want.iter().enumerate() {
            let t = f.lax.deserialize(r).map_err(|e| format!("{}: tag {} of {} fails: {:?}", reader_name(kind), i, hex(b), e))?;
            let y = extract(t.as_ref())?;
            ensure_eq!(y, **x, "{}: tag {} of {}", reader_name(kind), i, hex(b));
        }
        Ok(())
    });
    r?;
    ensure_eq!(used, b.len(), "{}: bytes used by {}", reader_name(kind), hex(b));
    ch.op();
    Ok(())
}

/// Whatever happens, nothing after the declared end is touched.
fn confined(ch: &Ch, b: &[u8], f: &Fs) -> R {
    if heavy(b, HEAVY) {
        return Ok(());
    }
    let end = declared_end(b);
    for strict in [false, true] {
        let fac = if strict { &f.strict } else { &f.lax };
        let mut r = ByteReader::new(b);
        let got = fac.deserialize(&mut r);
        ensure!(r.p <= end, "{}: the tag ends at {} but {} bytes were read", hex(b), end, r.p);
        match (&got, dec_with(b, strict, f.own)) {
            (Ok(t), Ok((x, n))) => {
                ensure!(r.p == n && n == end, "{}: {} bytes used, the tag has {}", hex(b), r.p, end);
                ensure_eq!(extract(t.as_ref())?, x, "{}", hex(b));
            }
            (Err(_), Err(_)) => {}
            (Ok(t), Err(e)) => return Err(format!("{} accepted as {:?}, expected {:?}", hex(b), extract(t.as_ref()), e)),
            (Err(e), Ok((x, _))) => return Err(format!("{} refused with {:?}, expected {:?}", hex(b), e, x)),
        }
        ch.seen(got.is_ok() as u64);
    }
    ch.seen_bytes(&b[..end]);
    ch.ops(2);
    Ok(())
}

/// A tag of the user that keeps its value in another form, so that the size it would
/// be written with is not the size it was read from.
struct Other {
    id: u64,
    got: Vec<u8>,
    size: u64,
}
impl ILTag for Other {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.size
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> tags::Result<()> {
        for _ in 0..self.size {
            w.write(7)?;
        }
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> tags::Result<()> {
        self.got = vec![0; n];
        r.read_all(&mut self.got)?;
        Ok(())
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
struct MkOther(u64);
impl ILTagCreator for MkOther {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> {
        Box::new(Other { id, got: vec![], size: self.0 })
    }
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = own_fs();
    let mut spaces = vec![];
    spaces.push(super::huge::reading(tier, "streams"));
    spaces.push(past_contents(tier, fs()));
    let small = docs();
    let all: Vec<T> = docs().into_iter().chain(big_docs()).chain(own_docs()).collect();
    {
        let (f, all) = (f.clone(), all.clone());
        spaces.push(space("pairs", format!("all ordered pairs of {} documents x {} readers, read back one by one, nothing left", all.len(), N_READERS), move |ch| {
            let (x, y) = (ch.pick(&all), ch.pick(&all));
            let b = [enc(x), enc(y)].concat();
            for k in 0..N_READERS {
                stream(ch, k, &b, &[x, y], &f)?;
            }
            ch.seen_bytes(&b);
            ch.visit(N_READERS as u64 - 1);
            Ok(())
        }));
    }
    {
        let (f, all) = (f.clone(), if th { all.clone() } else { small.clone() });
        spaces.push(space("triples", format!("all ordered triples of {} documents on a memory, a user and a stream reader", all.len()), move |ch| {
            let (x, y) = (ch.pick(&all), ch.pick(&all));
            for z in &all {
                let b = [enc(x), enc(y), enc(z)].concat();
                for k in [0, 2, 6] {
                    stream(ch, k, &b, &[x, y, z], &f)?;
                }
            }
            ch.visit(3 * all.len() as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let z = sizes(if th { 1 << 20 } else { 70_000 });
        spaces.push(space("sizes", format!("{} kinds of variable length x {} lengths and counts up to {}: two of them with another document between, on every reader", N_SIZED, z.len(), z[z.len() - 1]), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 7 && n > 10_000 {
                return Ok(());
            }
            let x = sized(kind, n);
            let y = sized_alt((kind + 5) % N_SIZED, n / 3, 1);
            let b = [enc(&x), vec![3, 7], enc(&x), enc(&y)].concat();
            for k in 0..N_READERS {
                stream(ch, k, &b, &[&x, &t(V::U8(7)), &x, &y], &f)?;
            }
            ch.visit(N_READERS as u64 - 1);
            ch.seen(n as u64);
            Ok(())
        }));
    }
    {
        let (f, all) = (f.clone(), all.clone());
        spaces.push(space("long_streams", "every document 40 times and all documents in every rotation, on every reader", move |ch| {
            let k = ch.choose(N_READERS);
            let i = ch.choose(all.len());
            let same: Vec<&T> = std::iter::repeat(&all[i]).take(40).collect();
            let rot: Vec<&T> = all[i..].iter().chain(&all[..i]).collect();
            for s in [same, rot] {
                let b: Vec<u8> = s.iter().flat_map(|x| enc(x)).collect();
                stream(ch, k, &b, &s, &f)?;
            }
            ch.visit(1);
            Ok(())
        }));
    }
    {
        let (f, all) = (f.clone(), all.clone());
        spaces.push(space("tails", format!("{} documents x every following byte and 6 longer tails: decoding from a stream leaves them, decoding a complete slice refuses them, an existing tag takes none of them", all.len()), move |ch| {
            let x = ch.pick(&all);
            let d = enc(x);
            ensure!(f.lax.from_bytes(&d).is_ok(), "from_bytes refuses {}", hex(&d));
            let mut tails: Vec<Vec<u8>> = (0..=255u8).map(|v| vec![v]).collect();
            tails.extend([vec![0, 0], vec![16, 0], vec![0xFF; 9], d.clone(), vec![0; 600], crate::alpha::fill(300, 1)]);
            for tail in &tails {
                let b = [&d[..], tail].concat();
                ensure!(f.lax.from_bytes(&b).is_err(), "from_bytes accepts {} bytes after {}", tail.len(), hex(&d));
                for k in [0, 1, 2, 3, 4, 8, 10] {
                    let (r, used) = with_reader(k, &b, |r| f.lax.deserialize(r).map(|t| extract(t.as_ref())));
                    let y = r.map_err(|e| format!("{}: {:?}", hex(&b), e))??;
                    ensure_eq!(y, *x, "{}", hex(&b));
                    ensure_eq!(used, d.len(), "{}: bytes used of {}", reader_name(k), hex(&b));
                    // Into an existing tag.
                    let mut t = empty_like(x);
                    let (r, used) = with_reader(k, &b, |r| f.lax.deserialize_into(r, t.as_mut()));
                    r.map_err(|e| format!("into: {}: {:?}", hex(&b), e))?;
                    ensure_eq!(used, d.len(), "{}: bytes used of {} into an existing tag", reader_name(k), hex(&b));
                    ch.ops(2);
                }
                if let (17, V::Str(s)) = (x.id, &x.v) {
                    let (r, used) = with_reader(2, &b, |r| deserialize_string_tag_from_value(r));
                    ensure!(r.as_ref().ok() == Some(s) && used == d.len(), "string: {:?} {} of {}", r, used, d.len());
                }
            }
            ch.visit(tails.len() as u64 * 14 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let all: Vec<T> = docs().into_iter().chain(wide_docs()).chain(own_docs()).filter(|x| ilint_sites(x, 0) < 40).collect();
        let devs = if th { 3 } else { 2 };
        spaces.push(
            space("shifted", format!("{} documents x up to {} of their length or count fields changed by -4..4, doubled or zeroed, followed by every kind of neighbour", all.len(), devs), move |ch| {
                let x = ch.pick(&all);
                let b = enc_with(x, &mut |site, v| {
                    if !matches!(site, Site::Len | Site::Count) {
                        return ilint(v);
                    }
                    const D: [i64; 9] = [0, 1, -1, 2, -2, 3, -3, 4, -4];
                    match ch.dev(11) {
                        k if k < 9 => ilint((v as i64 + D[k]).max(0) as u64),
                        9 => ilint(2 * v + 1),
                        _ => ilint(0),
                    }
                });
                for tail in [&[][..], &[0; 40], &[3; 40], &[17, 1, b'k', 0, 17, 1, b'j', 1, 1, 0, 0, 0, 0, 0, 0, 0, 0]] {
                    confined(ch, &[&b[..], tail].concat(), &f)?;
                }
                ch.visit(3);
                Ok(())
            })
            .devs(devs),
        );
    }
    {
        let f = f.clone();
        let top = if th { 4 } else { 3 };
        spaces.push(space("short", format!("every byte sequence of up to {} bytes: nothing after the declared end is read, successful or not", top), move |ch| {
            let n = ch.choose(top + 1);
            let mut b = vec![0u8; n];
            let outer = n.min(2);
            for x in b.iter_mut().take(outer) {
                *x = ch.choose(256) as u8;
            }
            let total = 256u64.pow((n - outer) as u32);
            for i in 0..total {
                for j in outer..n {
                    b[j] = (i >> (8 * (j - outer))) as u8;
                }
                confined(ch, &b, &f)?;
            }
            ch.visit(total - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let top = if th { 5 } else { 4 };
        spaces.push(space("grammar", format!("every content of up to {} structural bytes in every container (also under identifiers of the user), the declared length from 0 to 2 more than the content, followed by neighbours", top), move |ch| {
            let id = *ch.pick(&[20u8, 21, 22, 23, 25, 30, 31, 19, 24, 120, 121, 122, 123, 125, 130, 131, 119, 124, 110, 114, 101]);
            let n = ch.choose(top + 1);
            let mut c = vec![0u8; n];
            let outer = n.min(2);
            for x in c.iter_mut().take(outer) {
                *x = *ch.pick(&SYM);
            }
            let s = SYM.len();
            let total = s.pow((n - outer) as u32);
            for i in 0..total {
                let mut k = i;
                for x in c.iter_mut().skip(outer) {
                    *x = SYM[k % s];
                    k /= s;
                }
                for d in 0..=n + 2 {
                    let mut b = vec![id, d as u8];
                    b.extend(&c);
                    b.extend([17, 1, 0, 0, 0]);
                    confined(ch, &b, &f)?;
                }
            }
            ch.visit((n as u64 + 3) * total as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let all: Vec<T> = docs().into_iter().chain(own_docs()).collect();
        spaces.push(space("inner_ends", format!("{} documents inside each container whose declared end falls at every place before, at and after the end of the inner tag, the data going on", all.len()), move |ch| {
            let x = ch.pick(&all);
            let inner = enc(x);
            let shape = ch.choose(4);
            let head: Vec<u8> = match shape {
                0 => vec![],
                1 => vec![1],
                2 => vec![1, 17, 1, b'k'],
                _ => vec![2, 0],
            };
            let id = [22u8, 21, 30, 21][shape];
            let n = head.len() + inner.len();
            for end in 0..=n + 3 {
                let mut b = vec![id];
                b.extend(ilint(end as u64));
                b.extend(&head);
                b.extend(&inner);
                b.extend([0, 0, 0, 1, 1]);
                confined(ch, &b, &f)?;
                // One level more.
                confined(ch, &[&[22u8][..], &ilint(b.len() as u64 - 2), &b].concat(), &f)?;
            }
            ch.visit(2 * (n as u64 + 4) - 1);
            Ok(())
        }));
    }
    {
        // The value alone, of any length, in the middle of data.
        let base: Vec<T> = with_neighbours().into_iter().filter(|x| enc(x).len() < 100).collect();
        spaces.push(space("values", format!("{} tags: their value decoded by itself with every length from 0 to 3 more than its own, the data going on with each of 4 continuations, from 3 readers: nothing after that length is read, and what takes all of it is what the whole tag decodes to", base.len()), move |ch| {
            let x = ch.pick(&base);
            let v = enc_value(&x.v);
            let f = ILStandardTagFactory::new(false);
            let int = matches!(x.v, V::Int(_) | V::SInt(_));
            let mut ops = 0;
            for tail in [&[0u8; 24][..], &[0xFF; 24], &[1, 17, 1, b'a', 0, 0, 17, 1, b'a', 17, 0, 0, 3, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0xF8; 24]] {
                let all = [&v[..], tail].concat();
                for n in 0..=v.len() + 3 {
                    let b = &all[..n];
                    // What the whole tag is, and if it fails.
                    let whole = if x.id < 16 && n != v.len() && !int { None } else { dec(&if x.id < 16 { [&ilint(x.id)[..], b].concat() } else { frame(x.id, b) }, false).ok() };
                    for k in [0, 2, 6] {
                        let mut tag = empty_like(x);
                        let size = if int { 9 } else { n };
                        let (r, used) = with_reader(k, if int { b } else { &all }, |r| tag.deserialize_value(&f, size, r));
                        ensure!(used <= n, "value of {:?}: {} bytes of {} read, {} of them its own, from {}", x, used, hex(&all), n, reader_name(k));
                        if int {
                            continue;
                        }
                        match (&r, &whole) {
                            (Ok(()), Some((y, _))) => {
                                ensure_eq!(used, n, "bytes taken by the value {} of {}", hex(b), x.id);
                                ensure_eq!(extract(tag.as_ref())?, *y, "value {} of {}", hex(b), x.id);
                            }
                            (Err(e), Some((y, _))) => return Err(format!("value {} of {}: {:?}, expected {:?}", hex(b), x.id, e, y)),
                            // Too much is for the caller to notice.
                            (Ok(()), None) => ensure!(used < n, "value {} of {} accepted", hex(b), x.id),
                            (Err(_), None) => {}
                        }
                        ops += 1;
                    }
                }
            }
            ch.ops(ops);
            ch.visit(ops);
            ch.seen_bytes(&v);
            Ok(())
        }));
    }
    spaces.push(space("own_sizes", "tags of the user whose measured size (0, 1, 3, 9, 248 or 70000) is not the one they were read from (0 to 12, 247 to 249, 600, 66000): 1 to 3 of them in each container at every place among known tags, alone and nested in a sequence, followed by another tag, on every reader; and one alone in a slice, followed by 0 to 13 bytes or as many as it measures more", |ch| {
        let size = *ch.pick(&[0u64, 1, 3, 9, 248, 70_000]);
        let strict = ch.flag();
        let nest = ch.choose(5);
        let pat: Vec<bool> = {
            let n = 1 + ch.choose(3);
            (0..n).map(|_| ch.flag()).collect()
        };
        let mut f = ILStandardTagFactory::new(strict);
        f.engine().register(77, Box::new(MkOther(size)));
        let mut cases = 0;
        for n in (0..=12usize).chain([247, 248, 249, 600, 66_000]) {
            let one = frame(77, &crate::alpha::fill(n, 3));
            // A slice holds one tag and nothing else, whatever it measures.
            let whole = 1 + ilint(size).len() + size as usize;
            for extra in (0..=13usize).chain(whole.checked_sub(one.len())) {
                let b = [&one[..], &crate::alpha::fill(extra, 9)].concat();
                let r = f.from_bytes(&b);
                ensure!(r.is_ok() == (extra == 0), "a slice with {} bytes after a tag read from {} bytes that measures {}: {}", extra, one.len(), whole, if r.is_ok() { "accepted" } else { "refused" });
                ch.op();
            }
            // What the value is made of: the tag for every true, 8-bit numbers for the others.
            let elems: Vec<Vec<u8>> = pat.iter().enumerate().map(|(i, own)| if *own { one.clone() } else { vec![3, i as u8] }).collect();
            let flat = elems.concat();
            let count = ilint(elems.len() as u64);
            let keyed: Vec<u8> = elems.iter().enumerate().flat_map(|(i, e)| [&[17u8, 1, b'a' + i as u8][..], e].concat()).collect();
            let b = match nest {
                0 => frame(22, &flat),
                1 => frame(21, &[&count[..], &flat].concat()),
                2 => frame(30, &[&count[..], &keyed].concat()),
                3 => frame(22, &[&frame(22, &flat)[..], &[3, 9]].concat()),
                _ => frame(21, &[&[2u8][..], &frame(30, &[&count[..], &keyed].concat()), &[3, 9]].concat()),
            };
            let all = [&b[..], &[17, 1, b'q']].concat();
            for k in if n < 1000 { 0..N_READERS } else { 0..3 } {
                let (r, used) = with_reader(k, &all, |r| f.deserialize(r));
                let d = r.map_err(|e| format!("{} from {}: {:?}", hex(&b), reader_name(k), e))?;
                ensure_eq!(used, b.len(), "bytes of {} taken from {}", hex(&all), reader_name(k));
                fn inside<'a>(d: &'a dyn ILTag, nest: usize) -> Option<Vec<&'a dyn ILTag>> {
                    use il2_iltags::tags::tag_downcast_ref as to;
                    Some(match nest {
                        0 => to::<ILTagSeqTag>(d)?.value().iter().map(|x| x.as_ref()).collect(),
                        1 => to::<ILTagArrayTag>(d)?.value().iter().map(|x| x.as_ref()).collect(),
                        2 => {
                            let mut v: Vec<_> = to::<ILDictTag>(d)?.value().iter().collect();
                            v.sort_by_key(|x| x.0);
                            v.into_iter().map(|x| x.1.as_ref()).collect()
                        }
                        _ => {
                            let v = inside(d, nest - 3)?;
                            if v.len() != 2 || extract(v[1]).ok()? != t(V::U8(9)) {
                                return None;
                            }
                            return inside(v[0], if nest == 3 { 0 } else { 2 });
                        }
                    })
                }
                let got = inside(d.as_ref(), nest).ok_or_else(|| format!("{} decodes as another structure", hex(&b)))?;
                ensure_eq!(got.len(), pat.len(), "elements of {} from {}", hex(&b), reader_name(k));
                for (i, (x, own)) in got.iter().zip(&pat).enumerate() {
                    if *own {
                        let y = tags::tag_downcast_ref::<Other>(*x).ok_or_else(|| format!("{}: element {} is of another type", hex(&b), i))?;
                        ensure!(y.got == crate::alpha::fill(n, 3), "{}: element {} holds {}", hex(&b), i, hex(&y.got));
                    } else {
                        ensure_eq!(extract(*x)?, t(V::U8(i as u8)), "element {} of {}", i, hex(&b));
                    }
                }
                ch.op();
                cases += 1;
            }
        }
        ch.visit(cases - 1);
        ch.seen(size * 64 + nest as u64 * 8 + pat.len() as u64);
        Ok(())
    }));
    {
        // The operations with a length that tags are read with.
        let ops = long_ops();
        let z = sizes(if th { 140_000 } else { 10_000 });
        spaces.push(space("long_primitives", format!("{} reading operations x {} lengths up to {} x 6 tails x {} readers: exactly the length is taken", ops.len(), z.len(), z[z.len() - 1], N_READERS), move |ch| {
            let (name, returned, op) = *ch.pick(&ops);
            let n = *ch.pick(&z);
            for tail in [0, 1, 3, 7, 8, 600] {
                let b = long_data(n, tail);
                for k in 0..N_READERS {
                    let (r, used) = with_reader(k, &b, |r| op(r, n));
                    let r = r.map_err(|e| format!("{} of {} bytes, {} following, from {}: {:?}", name, n, tail, reader_name(k), e))?;
                    ensure!(!returned || r == b[..n], "{} of {} bytes, {} following, from {} gives other bytes", name, n, tail, reader_name(k));
                    ensure_eq!(used, n, "bytes taken by {} from {} with {} following", name, reader_name(k), tail);
                    ch.op();
                }
            }
            ch.visit(5);
            ch.seen(n as u64);
            Ok(())
        }));
    }
    Prop { id: "C10", spaces, assumptions: vec![] }
}
