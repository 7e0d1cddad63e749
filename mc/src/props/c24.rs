//! C24: clone and equality follow the serialized value.
use super::docs::*;
use super::mach::*;
use crate::alpha::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::any::Any;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// A user tag: announces `size`, writes `body`, and fails at the given times its
/// value is written (bit i: the i-th), with the given error.
pub struct User {
    id: u64,
    body: Vec<u8>,
    size: u64,
    fails: u64,
    err: usize,
    times: Arc<AtomicUsize>,
}
impl User {
    fn new(id: u64, body: &[u8]) -> User {
        User { id, body: body.to_vec(), size: body.len() as u64, fails: 0, err: 0, times: Default::default() }
    }
    fn failing(id: u64, body: &[u8], fails: u64, err: usize) -> User {
        User { fails, err, ..User::new(id, body) }
    }
    fn lying(id: u64, body: &[u8], size: u64) -> User {
        User { size, ..User::new(id, body) }
    }
}
const N_ERRS: usize = 8 + N_FAULTS;
fn err(k: usize, n: u64) -> ErrorKind {
    match k {
        0 => ErrorKind::UnableToSerialize,
        1 => ErrorKind::CorruptedData,
        2 => ErrorKind::UnknownTag,
        3 => ErrorKind::UnsupportedTag,
        4 => ErrorKind::TagTooLarge,
        5 => ErrorKind::UnexpectedTagType,
        6 => ErrorKind::Boxed(Box::new(Injected(n))),
        7 => ErrorKind::IOError(il2_iltags::io::ErrorKind::UnableToWriteData),
        k => ErrorKind::IOError(fault(k - 8, n)),
    }
}
fn is_err(e: &ErrorKind, k: usize, n: u64) -> bool {
    match (k, e) {
        (0, ErrorKind::UnableToSerialize) | (1, ErrorKind::CorruptedData) | (2, ErrorKind::UnknownTag) | (3, ErrorKind::UnsupportedTag) | (4, ErrorKind::TagTooLarge) | (5, ErrorKind::UnexpectedTagType) => true,
        (6, ErrorKind::Boxed(b)) => b.downcast_ref::<Injected>().map(|i| i.0) == Some(n),
        (7, ErrorKind::IOError(il2_iltags::io::ErrorKind::UnableToWriteData)) => true,
        (k, ErrorKind::IOError(e)) if k >= 8 => is_fault(e, k - 8, n),
        _ => false,
    }
}
impl ILTag for User {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.size
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        let n = self.times.fetch_add(1, Ordering::SeqCst);
        // What is written before the failure must not count either.
        let half = self.body.len() / 2;
        w.write_all(&self.body[..half])?;
        if self.fails >> n.min(63) & 1 == 1 {
            return Err(err(self.err, n as u64));
        }
        w.write_all(&self.body[half..])?;
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        self.body = vec![0; n];
        self.size = n as u64;
        r.read_all(&mut self.body)?;
        Ok(())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
struct MkUser;
impl ILTagCreator for MkUser {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> {
        Box::new(User::new(id, &[]))
    }
}

/// Compares all pairs among `xs` (each a tag and its bytes).
fn pairs(ch: &Ch, a: &(Tag, Vec<u8>), xs: &[(Tag, Vec<u8>)]) -> R {
    for b in xs {
        let want = a.1 == b.1;
        let (x, y) = (iltag_are_equal(a.0.as_ref(), b.0.as_ref()), iltag_are_equal(b.0.as_ref(), a.0.as_ref()));
        if x != want || y != want {
            return Err(format!("comparing {} with {}: {}, the other way {}", hex(&a.1), hex(&b.1), x, y));
        }
    }
    ch.ops(2 * xs.len() as u64);
    ch.visit(xs.len() as u64 - 1);
    ch.seen_bytes(&a.1);
    Ok(())
}
fn known(x: &T) -> bool {
    no_raw(x)
}
fn clones(ch: &Ch, x: &T, lax: &ILStandardTagFactory, strict: &ILStandardTagFactory) -> R {
    let tag = build(x);
    let b = enc(x);
    let check = |r: Result<Tag>, how: &str| -> R {
        let c = r.map_err(|e| format!("{} of {:?}: {:?}", how, x, e))?;
        let y = extract(c.as_ref())?;
        if y != *x {
            return Err(format!("{} of {:?} is {:?}", how, x, y));
        }
        ensure!(iltag_are_equal(c.as_ref(), tag.as_ref()) && iltag_are_equal(tag.as_ref(), c.as_ref()), "{} of {:?} is not equal to it", how, x);
        Ok(())
    };
    check(iltag_clone(tag.as_ref()), "clone")?;
    check(iltag_clone_with_factory(lax, tag.as_ref()), "clone with a non-strict factory")?;
    let r = iltag_clone_with_factory(strict, tag.as_ref());
    if known(x) {
        check(r, "clone with a strict factory")?;
    } else if let Ok(c) = r {
        return Err(format!("clone of {:?} with a strict factory is {:?}", x, extract(c.as_ref())));
    }
    ensure_eq!(extract(tag.as_ref())?, *x, "original after cloning");
    ensure!(iltag_are_equal(tag.as_ref(), tag.as_ref()), "{:?} is not equal to itself", x);
    ch.ops(5);
    ch.seen_bytes(&b);
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    spaces.push(super::huge::equality(tier));
    {
        // Every document, and as a raw tag and a user tag with the same bytes.
        let mut xs: Vec<T> = extremes();
        xs.extend(docs());
        xs.extend(big_docs());
        xs.extend(wide_docs());
        let mut all: Vec<(Tag, Vec<u8>)> = vec![];
        for x in &xs {
            all.push((build(x), enc(x)));
            let v = enc_value(&x.v);
            if x.id >= 16 {
                all.push((Box::new(ILRawTag::with_value(x.id, &v)), enc(x)));
            }
            all.push((Box::new(User::new(x.id, &v)), enc(x)));
        }
        let n = all.len();
        let all = Arc::new(all);
        spaces.push(space("pairs", format!("all ordered pairs of {} tags of every type, as built-in, raw and user tags", n), move |ch| pairs(ch, ch.pick(&all), &all)));
    }
    {
        let z = sizes(if th { 1 << 20 } else { 140_000 });
        let lax = ILStandardTagFactory::new(false);
        spaces.push(space("sizes", format!("{} kinds of variable length x {} lengths and counts up to {}: against themselves, an equal one, the same as a user tag, and one differing in a single byte at the first and last places and around every power of two; cloned", N_SIZED, z.len(), z[z.len() - 1]), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 7 && n > 20_000 {
                return Ok(());
            }
            let x = sized(kind, n);
            let what = format!("kind {} of size {}", kind, n);
            let (tag, twin) = (build(&x), build(&x));
            let eq = |a: &dyn ILTag, b: &dyn ILTag| (iltag_are_equal(a, b), iltag_are_equal(b, a));
            ensure_eq!(eq(tag.as_ref(), tag.as_ref()), (true, true), "{} compared with itself", what);
            ensure_eq!(eq(tag.as_ref(), twin.as_ref()), (true, true), "{} compared with its twin", what);
            let v = enc_value(&x.v);
            let user = User::new(x.id, &v);
            ensure_eq!(eq(tag.as_ref(), &user), (true, true), "{} compared with a user tag", what);
            for at in places(v.len()) {
                let mut w = v.clone();
                w[at] ^= 1 << (at % 8);
                ensure_eq!(eq(tag.as_ref(), &User::new(x.id, &w)), (false, false), "{} compared with one that differs at {}", what, at);
                ensure_eq!(eq(tag.as_ref(), &User::new(x.id, &v[..at])), (false, false), "{} compared with its first {} bytes", what, at);
                ensure_eq!(eq(&ILRawTag::with_value(99, &v), &ILRawTag::with_value(99, &w)), (false, false), "raw tags of {} bytes that differ at {}", v.len(), at);
                ch.ops(6);
                ch.visit(1);
            }
            let alt = sized_alt(kind, n, 1);
            let same = enc(&alt) == enc(&x);
            ensure_eq!(eq(tag.as_ref(), build(&alt).as_ref()), (same, same), "{} compared with other contents", what);
            for r in [iltag_clone(tag.as_ref()), iltag_clone_with_factory(&lax, tag.as_ref())] {
                let c = r.map_err(|e| format!("clone of {}: {:?}", what, e))?;
                ensure!(extract(c.as_ref())? == x, "the clone of {} is another value", what);
                ensure_eq!(eq(tag.as_ref(), c.as_ref()), (true, true), "{} compared with its clone", what);
            }
            ch.ops(10);
            ch.seen((kind * 1_000_000 + n) as u64);
            Ok(())
        }));
    }
    {
        // Values made of the same bytes or words in another order, and changes that
        // make up for each other.
        let z: Vec<usize> = [2, 3, 8, 9, 16, 31, 64, 257, 300, 1000, 4096, 5000, 65_537, 70_000].to_vec();
        spaces.push(space("swapped", format!("values of {} lengths up to {}: words of 1, 2, 4, 8 and 16 bytes exchanged between every two of the first and last places and those around every power of two, bytes changed there in ways that make up for each other, halves exchanged, reversed; raw, user and byte array tags, whole and in an array", z.len(), z[z.len() - 1]), move |ch| {
            let n = *ch.pick(&z);
            let w = *ch.pick(&[1usize, 2, 4, 8, 16]);
            let kind = ch.choose(4);
            let v: Vec<u8> = (0..n).map(|i| ((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) as u8).collect();
            let mk = |v: &[u8]| -> Tag {
                match kind {
                    0 => Box::new(ILRawTag::with_value(99, v)),
                    1 => Box::new(User::new(99, v)),
                    2 => Box::new(ILByteArrayTag::with_value(v)),
                    _ => {
                        let mut a = ILTagArrayTag::new();
                        a.mut_value().push(Box::new(ILRawTag::with_value(99, v)));
                        Box::new(a)
                    }
                }
            };
            let tag = mk(&v);
            ensure!(iltag_are_equal(tag.as_ref(), mk(&v).as_ref()), "{} bytes are not equal to themselves", n);
            let differ = |u: &[u8], how: &dyn Fn() -> String| -> R {
                let same = u == v;
                let t = mk(u);
                let (x, y) = (iltag_are_equal(tag.as_ref(), t.as_ref()), iltag_are_equal(t.as_ref(), tag.as_ref()));
                ensure!(x == same && y == same, "{} bytes and {}: equal is {}, the other way {}", n, how(), x, y);
                ch.ops(2);
                ch.visit(1);
                Ok(())
            };
            let ps: Vec<usize> = if n > 5000 { places(n).into_iter().filter(|p| *p < 40 || *p % 256 < 2 || *p + 9 > n).collect() } else { places(n) };
            for &i in &ps {
                for &j in &ps {
                    if i + w > j || j + w > n {
                        continue;
                    }
                    let mut u = v.clone();
                    for k in 0..w {
                        u.swap(i + k, j + k);
                    }
                    differ(&u, &|| format!("those with the {} at {} and {} exchanged", w, i, j))?;
                    let mut u = v.clone();
                    match w {
                        1 => {
                            u[i] = u[i].wrapping_add(1);
                            u[j] = u[j].wrapping_sub(1);
                        }
                        2 => {
                            u[i] ^= 0x80;
                            u[j] ^= 0x80;
                        }
                        _ => {
                            u[i] = u[i].wrapping_add(2);
                            u[i + 1] = u[i + 1].wrapping_sub(4);
                            u[j] = u[j].wrapping_add(2);
                        }
                    }
                    differ(&u, &|| format!("those with changes at {} and {} that make up for each other", i, j))?;
                }
            }
            let mut u = v.clone();
            u.rotate_left(n / 2);
            differ(&u, &|| "those rotated by half".to_string())?;
            u = v.clone();
            u.reverse();
            differ(&u, &|| "those reversed".to_string())?;
            u.sort();
            differ(&u, &|| "those sorted".to_string())?;
            ch.seen((n * 100 + w * 4 + kind) as u64);
            Ok(())
        }));
    }
    {
        let base = with_neighbours();
        spaces.push(space("variations", format!("{} tags x each of their variations (places swapped, rotated, reversed, the same sum, the same exclusive or, one place changed, added or removed, keys or elements exchanged): not equal in either direction, alone and inside each container", base.len()), move |ch| {
            let x = ch.pick(&base);
            let nest = ch.choose(4);
            let put = |y: &T| if nest == 0 { y.clone() } else { wrap(nest - 1, vec![t(V::U8(1)), y.clone()]) };
            let tag = build(&put(x));
            let b = enc(x);
            let near = neighbours(x);
            ensure!(iltag_are_equal(tag.as_ref(), build(&put(x)).as_ref()), "{:?} and its twin differ", x);
            for y in &near {
                let u = build(&put(y));
                let want = enc(y) == b;
                let got = (iltag_are_equal(tag.as_ref(), u.as_ref()), iltag_are_equal(u.as_ref(), tag.as_ref()));
                ensure!(got == (want, want), "{:?} compared with {:?} (nested {}): {:?}", x, y, nest, got);
            }
            ch.visit(near.len() as u64);
            ch.ops(2 * near.len() as u64);
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        // Different values that common checksums do not tell apart.
        let all = collisions();
        spaces.push(space("checksums", format!("{} pairs of values with the same checksum or hash (of the value, or of the whole tag) as raw, user and byte array tags, alone and inside each container: not equal", all.len()), move |ch| {
            let (name, prefix, a, b) = ch.pick(&all);
            let nest = ch.choose(4);
            let mk = |v: &[u8], k: usize| -> Tag {
                let x = match k {
                    0 => t(V::Bytes(v.to_vec())),
                    _ => T { id: 99, v: V::Raw(v.to_vec()) },
                };
                if k == 2 && nest == 0 {
                    return Box::new(User::new(99, v));
                }
                build(&if nest == 0 { x } else { wrap(nest - 1, vec![t(V::U8(1)), x]) })
            };
            ensure!(a != b && a.len() == b.len(), "harness: {}", name);
            for k in 0..3 {
                let (x, y) = (mk(a, k), mk(b, k));
                let got = (iltag_are_equal(x.as_ref(), y.as_ref()), iltag_are_equal(y.as_ref(), x.as_ref()));
                ensure!(got == (false, false), "{} and {}, with the same {} ({} bytes before), compared: {:?}", hex(a), hex(b), name, prefix, got);
                ensure!(iltag_are_equal(x.as_ref(), mk(a, k).as_ref()), "{} and its twin differ", hex(a));
                ch.ops(3);
            }
            ch.visit(2);
            ch.seen_bytes(b);
            Ok(())
        }));
    }
    {
        // Values that differ in one place only.
        let ds = docs();
        spaces.push(space("near", format!("every single-byte change, cut and extension of the value of {} documents, as raw and user tags against the document itself", ds.len()), move |ch| {
            let x = ch.pick(&ds);
            let tag = build(x);
            let v = enc_value(&x.v);
            let at = ch.choose(v.len() + 1);
            let mut n = 0;
            let mut go = |w: Vec<u8>, id: u64| -> R {
                let y: Tag = if id >= 16 && w.len() % 2 == 0 { Box::new(ILRawTag::with_value(id, &w)) } else { Box::new(User::new(id, &w)) };
                let want = id == x.id && w == v;
                ensure!(iltag_are_equal(tag.as_ref(), y.as_ref()) == want, "{:?} compared with tag {} of value {}: {}", x, id, hex(&w), !want);
                ensure!(iltag_are_equal(y.as_ref(), tag.as_ref()) == want, "tag {} of value {} compared with {:?}: {}", id, hex(&w), x, !want);
                n += 1;
                Ok(())
            };
            for k in 0..=255u8 {
                if at < v.len() {
                    let mut w = v.clone();
                    w[at] = k;
                    go(w, x.id)?;
                }
                let mut w = v.clone();
                w.insert(at, k);
                go(w, x.id)?;
            }
            go(v[..at].to_vec(), x.id)?;
            go(v[at..].to_vec(), x.id)?;
            for id in [0, 1, 16, 17, 21, 22, 32, x.id ^ 1, x.id.wrapping_add(1), x.id ^ 1 << 63, x.id] {
                go(v.clone(), id)?;
            }
            ch.ops(2 * n);
            ch.visit(n - 1);
            ch.seen(at as u64);
            Ok(())
        }));
    }
    {
        let leaves = [t(V::Null), t(V::U8(1)), raw(40, &[])];
        let n = if th { 5 } else { 4 };
        // All trees up to n tags.
        fn gen(n: usize, leaves: &[T]) -> Vec<T> {
            // by size
            let mut by: Vec<Vec<T>> = vec![vec![], leaves.to_vec()];
            by[1].extend((0..3).map(|k| wrap(k, vec![])));
            // lists of trees of total size m
            fn lists(m: usize, by: &[Vec<T>]) -> Vec<Vec<T>> {
                if m == 0 {
                    return vec![vec![]];
                }
                let mut out = vec![];
                for first in 1..=m.min(by.len() - 1) {
                    for rest in lists(m - first, by) {
                        for x in &by[first] {
                            let mut l = vec![x.clone()];
                            l.extend(rest.clone());
                            out.push(l);
                        }
                    }
                }
                out
            }
            for size in 2..=n {
                let mut v = vec![];
                for l in lists(size - 1, &by) {
                    for k in 0..3 {
                        v.push(wrap(k, l.clone()));
                    }
                }
                by.push(v);
            }
            by.into_iter().flatten().collect()
        }
        let ts = gen(n, &leaves);
        let all: Arc<Vec<(Tag, Vec<u8>)>> = Arc::new(ts.iter().map(|x| (build(x), enc(x))).collect());
        let k = all.len();
        spaces.push(space("tree_pairs", format!("all ordered pairs of the {} trees of at most {} tags over 3 leaves and the containers", k, n), move |ch| pairs(ch, ch.pick(&all), &all)));
    }
    {
        let (lax, strict) = (ILStandardTagFactory::new(false), ILStandardTagFactory::new(true));
        let fs = Arc::new((lax, strict));
        spaces.extend(tag_spaces(tier, Arc::new(move |ch, x| clones(ch, x, &fs.0, &fs.1))));
    }
    {
        let ms = Arc::new(machines());
        let post = if th { 3 } else { 2 };
        spaces.push(space("independence", format!("{} tag types: every constructor, up to 1 mutation, clone, then every history of up to {} mutations on either side, both observed after every step", ms.len(), post), move |ch| {
            let m = ch.pick(&ms);
            let (cn, c) = ch.pick(&m.ctors);
            let (tag, model) = c();
            let mut hist: Vec<String> = vec![format!("{}::{}", m.name, cn)];
            let mut side = [(tag, model.clone()), (Box::new(ILNullTag::new()) as Tag, model)];
            let k = ch.choose(m.ops.len() + 1);
            if k > 0 {
                let s = &mut side[0];
                (m.ops[k - 1].1)(s.0.as_mut(), &mut s.1.v);
                hist.push(m.ops[k - 1].0.clone());
            }
            // A tag with another id is cloned by a factory that makes this type for it.
            let mut f = ILStandardTagFactory::new(false);
            let id = side[0].1.id;
            if id != std_id_of(&side[0].1.v) {
                f.engine().register(id, Box::new(Like(side[0].1.v.clone())));
            }
            let c = iltag_clone_with_factory(&f, side[0].0.as_ref()).map_err(|e| format!("clone after {:?}: {:?}", hist, e))?;
            hist.push("clone".into());
            side[1] = (c, side[0].1.clone());
            for step in 0..=post {
                for (n, s) in side.iter().enumerate() {
                    let y = extract(s.0.as_ref())?;
                    if y != s.1 {
                        return Err(format!("after {:?}: {} is {:?}, expected {:?}", hist, ["the original", "the clone"][n], y, s.1));
                    }
                }
                let want = enc(&side[0].1) == enc(&side[1].1);
                ensure!(iltag_are_equal(side[0].0.as_ref(), side[1].0.as_ref()) == want, "after {:?}: equality of original and clone is {}", hist, !want);
                ch.op();
                if step == post {
                    break;
                }
                let k = ch.choose(2 * m.ops.len() + 1);
                if k == 0 {
                    break;
                }
                let (o, n) = (&m.ops[(k - 1) / 2], (k - 1) % 2);
                let s = &mut side[n];
                (o.1)(s.0.as_mut(), &mut s.1.v);
                hist.push(format!("{}: {}", ["original", "clone"][n], o.0));
            }
            ch.seen_bytes(&enc(&side[0].1));
            ch.seen_bytes(&enc(&side[1].1));
            Ok(())
        }));
    }
    {
        let nest = |k: usize, x: Tag| -> Tag {
            let mut s = ILTagSeqTag::new();
            let mut a = ILTagArrayTag::new();
            let mut d = ILDictTag::new();
            match k {
                0 => x,
                1 => {
                    s.mut_value().push(x);
                    Box::new(s)
                }
                2 => {
                    a.mut_value().push(Box::new(ILUInt8Tag::with_value(1)));
                    a.mut_value().push(x);
                    Box::new(a)
                }
                3 => {
                    d.insert("b", x);
                    d.insert("a", Box::new(ILNullTag::new()));
                    Box::new(d)
                }
                _ => {
                    a.mut_value().push(x);
                    s.mut_value().push(Box::new(a));
                    d.insert("", Box::new(s));
                    Box::new(d)
                }
            }
        };
        let others = kinds();
        spaces.push(space("failing", format!("user tags failing at each of their first four serializations in every pattern, with {} errors, alone and nested in 5 ways: compared with themselves, a twin, {} tags, and cloned", N_ERRS, others.len()), move |ch| {
            let e = ch.choose(N_ERRS);
            let how = ch.choose(5);
            let fails = ch.choose(16) as u64;
            let body: &[u8] = *ch.pick(&[&[][..], &[1, 2, 3]]);
            // How often each has been serialized so far is known: a comparison may
            // stop at the first failure.
            let mk = |fails| nest(how, Box::new(User::failing(77, body, fails, e)));
            let good = mk(0);
            // Permanently failing: equal to nothing.
            if fails == 15 {
                let bad = mk(u64::MAX);
                ensure!(!iltag_are_equal(bad.as_ref(), bad.as_ref()), "a tag that cannot be serialized equals itself");
                let twin = mk(u64::MAX);
                ensure!(!iltag_are_equal(bad.as_ref(), twin.as_ref()), "two tags that cannot be serialized are equal");
                ensure!(!iltag_are_equal(bad.as_ref(), good.as_ref()) && !iltag_are_equal(good.as_ref(), bad.as_ref()), "a tag that cannot be serialized equals one that can");
                for o in &others {
                    let o = build(o);
                    ensure!(!iltag_are_equal(bad.as_ref(), o.as_ref()) && !iltag_are_equal(o.as_ref(), bad.as_ref()), "a tag that cannot be serialized equals a {} tag", o.id());
                }
                let empty: Tag = nest(how, Box::new(ILRawTag::new(77)));
                ensure!(!iltag_are_equal(bad.as_ref(), empty.as_ref()), "a tag that cannot be serialized equals an empty one");
                ch.ops(5 + 2 * others.len() as u64);
                return Ok(());
            }
            // Failing at times: each call holds for what was serialized during it.
            let mk2 = || {
                let u = User::failing(77, body, fails, e);
                let n = u.times.clone();
                (nest(how, Box::new(u)), n)
            };
            for turn in 0..2 {
                let (bad, n) = mk2();
                for _ in 0..6 {
                    let from = n.load(Ordering::SeqCst);
                    let r = if turn == 0 { iltag_are_equal(bad.as_ref(), good.as_ref()) } else { iltag_are_equal(good.as_ref(), bad.as_ref()) };
                    let to = n.load(Ordering::SeqCst);
                    let failed = (from..to).any(|i| fails >> i.min(63) & 1 == 1);
                    ensure!(r != failed && to > from, "comparison of a tag failing in pattern {:04b}, serializations {} to {}: {}", fails, from, to, r);
                }
                let (bad, n) = mk2();
                for _ in 0..6 {
                    let from = n.load(Ordering::SeqCst);
                    let r = iltag_clone(bad.as_ref());
                    let to = n.load(Ordering::SeqCst);
                    let failed = (from..to).find(|i| fails >> (*i).min(63) & 1 == 1);
                    match (r, failed) {
                        (Ok(c), None) => ensure!(iltag_are_equal(c.as_ref(), good.as_ref()), "clone is not equal"),
                        (Err(x), Some(i)) => ensure!(is_err(&x, e, i as u64), "clone of a tag failing in pattern {:04b}: {:?}, expected error {}", fails, x, e),
                        (r, i) => return Err(format!("clone of a tag failing in pattern {:04b} at {:?}: {:?}", fails, i, r.map(|c| c.id()))),
                    }
                }
                ch.ops(12);
            }
            ch.seen(fails);
            Ok(())
        }));
        spaces.push(space("lying", "user tags announcing every size from 0 to 12 with bodies of 0 to 12 bytes, alone and nested in 5 ways: comparison follows the bytes, a clone is made only of what is well-formed", move |ch| {
            let n = ch.choose(13);
            let m = ch.choose(13) as u64;
            let how = ch.choose(5);
            let id = *ch.pick(&[40u64, 17, 3, 22]);
            let body = fill(n, 5);
            let tag = nest(how, Box::new(User::lying(id, &body, m)));
            let twin = nest(how, Box::new(User::lying(id, &body, m)));
            let b = tag.to_bytes().map_err(|e| format!("harness: {:?}", e))?;
            ensure!(iltag_are_equal(tag.as_ref(), twin.as_ref()), "equal bytes {} compare different", hex(&b));
            let other = nest(how, Box::new(User::lying(id, &fill(n + 1, 5), m)));
            ensure!(!iltag_are_equal(tag.as_ref(), other.as_ref()), "different bytes compare equal");
            for (r, strict) in [(iltag_clone(tag.as_ref()), false), (iltag_clone_with_factory(&ILStandardTagFactory::new(true), tag.as_ref()), true)] {
                match (dec(&b, strict), r) {
                    (Ok((x, used)), Ok(c)) if used == b.len() => ensure_eq!(extract(c.as_ref())?, x, "clone of {}", hex(&b)),
                    (Ok((_, used)), Err(_)) if used < b.len() => {}
                    (Err(_), Err(_)) => {}
                    (w, r) => return Err(format!("clone of {} (strict {}): {:?}, expected {:?}", hex(&b), strict, r.map(|c| extract(c.as_ref())), w)),
                }
            }
            ch.ops(4);
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        // Factories that know only some of the identifiers.
        let ks = kinds();
        spaces.push(space("factories", format!("{} kinds of tag x factories knowing all standard identifiers but one, both modes, or making user tags for one", ks.len()), move |ch| {
            let x = ch.pick(&ks);
            let k = ch.choose(ks.len());
            let strict = ch.flag();
            let user = ch.flag();
            let gone = ks[k].id;
            let mut f = ILStandardTagFactory::new(strict);
            if user {
                f.engine().register(gone, Box::new(MkUser));
            } else {
                f.engine().deregister(gone);
            }
            let tag = build(x);
            let r = iltag_clone_with_factory(&f, tag.as_ref());
            // The ids inside.
            fn has(x: &T, id: u64) -> bool {
                x.id == id
                    || match &x.v {
                        V::Arr(a) | V::Seq(a) => a.iter().any(|y| has(y, id)),
                        V::Dict(m) => m.values().any(|y| has(y, id)),
                        _ => false,
                    }
            }
            fn unknown(x: &T, strict: bool, user: bool, gone: u64) -> bool {
                let me = if x.id == gone { if user { false } else { strict || x.id < 16 } } else { matches!(x.v, V::Raw(_)) && strict };
                // The inside of a tag decoded as raw or by the user is not looked at.
                me || (x.id != gone
                    && match &x.v {
                        V::Arr(a) | V::Seq(a) => a.iter().any(|y| unknown(y, strict, user, gone)),
                        V::Dict(m) => m.values().any(|y| unknown(y, strict, user, gone)),
                        _ => false,
                    })
            }
            // User tags for the self-delimiting implicit ILInts cannot know their length.
            let odd = user && (gone == 10 || gone == 14) && has(x, gone);
            match r {
                Ok(c) => {
                    ensure!(!unknown(x, strict, user, gone) || odd, "{:?} is cloned by a factory that does not know it", x);
                    ensure!(odd || iltag_are_equal(c.as_ref(), tag.as_ref()), "clone of {:?} is not equal to it", x);
                    if user && x.id == gone {
                        ensure!(c.as_any().is::<User>(), "clone of {:?} is not of the kind its factory makes", x);
                    }
                    if !has(x, gone) {
                        ensure_eq!(extract(c.as_ref())?, *x, "clone");
                    }
                    if x.id == gone && !user {
                        ensure!(c.as_any().is::<ILRawTag>(), "clone of {:?} is not raw", x);
                    }
                }
                Err(e) => ensure!(unknown(x, strict, user, gone) || odd, "{:?} cannot be cloned: {:?}", x, e),
            }
            ensure_eq!(extract(tag.as_ref())?, *x, "original after cloning");
            ch.op();
            ch.seen(x.id ^ gone << 32);
            Ok(())
        }));
        let ks = docs();
        spaces.push(space("generations", format!("{} documents cloned ten times over, each generation compared with all others", ks.len()), move |ch| {
            let x = ch.pick(&ks);
            let mut g = vec![build(x)];
            for _ in 0..10 {
                let c = iltag_clone(g[g.len() - 1].as_ref()).map_err(|e| format!("{:?}: {:?}", x, e))?;
                g.push(c);
            }
            for a in &g {
                ensure_eq!(extract(a.as_ref())?, *x, "generation");
                for b in &g {
                    ensure!(iltag_are_equal(a.as_ref(), b.as_ref()), "two generations of {:?} differ", x);
                }
            }
            // Dropping the others leaves the last intact.
            let last = g.pop().ok_or("harness: empty")?;
            drop(g);
            ensure_eq!(extract(last.as_ref())?, *x, "last generation");
            ch.ops(131);
            ch.seen_bytes(&enc(x));
            Ok(())
        }));
    }
    Prop { id: "C24", spaces, assumptions: vec![] }
}
/// The standard identifier of a value (none for raw).
fn std_id_of(v: &V) -> u64 {
    match v {
        V::Raw(_) => u64::MAX,
        v => std_id(v),
    }
}
/// Creates empty tags of the type of a value with any id.
struct Like(V);
impl ILTagCreator for Like {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> {
        empty_like(&T { id, v: self.0.clone() })
    }
}

/// Pairs of different values of one length with the same checksum, whatever comes
/// before (linear checksums and sums) or after the given number of header bytes.
fn collisions() -> Vec<(String, usize, Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    // Cyclic: a multiple of the polynomial added anywhere.
    let polys: [(u64, u32); 10] = [(0x07, 8), (0x31, 8), (0x8005, 16), (0x1021, 16), (0x3D65, 16), (0x04C1_1DB7, 32), (0x1EDC_6F41, 32), (0x741B_8CD7, 32), (0x42F0_E1EB_A9EA_3693, 64), (0x1B, 64)];
    for (p, w) in polys {
        // In the order of transmission: the leading one, then the others.
        let bits: Vec<bool> = std::iter::once(true).chain((0..w).rev().map(|i| p >> i & 1 == 1)).collect();
        for lsb in [false, true] {
            for shift in [0usize, 3, 8, 21] {
                let mut d = vec![0u8; 16];
                for (i, b) in bits.iter().enumerate() {
                    let at = shift + i;
                    if *b {
                        d[at / 8] |= if lsb { 1 << (at % 8) } else { 0x80 >> (at % 8) };
                    }
                }
                for (lead, tail) in [(0, 0), (1, 5), (8, 8), (3, 300)] {
                    let a: Vec<u8> = fill(lead + 16 + tail, 7);
                    let mut b = a.clone();
                    for (x, y) in b[lead..].iter_mut().zip(&d) {
                        *x ^= y;
                    }
                    out.push((format!("CRC-{} of {:x}", w, p), 0, a, b));
                }
            }
        }
    }
    // Sums, sums of sums and polynomials in small numbers.
    for (name, d) in [
        ("sum", vec![1i32, -1]),
        ("sum of words", vec![1, 0, -1, 0]),
        ("sum of sums", vec![1, -2, 1]),
        ("sum of sums of sums", vec![1, -3, 3, -1]),
        ("polynomial in 17", vec![1, -17]),
        ("polynomial in 31", vec![1, -31]),
        ("polynomial in 33", vec![1, -33]),
        ("polynomial in 37", vec![1, -37]),
        ("polynomial in 101", vec![1, -101]),
    ] {
        for (lead, tail) in [(0, 0), (1, 5), (8, 8), (3, 300)] {
            let a: Vec<u8> = vec![110; lead + d.len() + tail];
            let mut b = a.clone();
            for (x, y) in b[lead..].iter_mut().zip(&d) {
                *x = (*x as i32 + y) as u8;
            }
            out.push((name.to_string(), 0, a, b));
        }
    }
    // Others by search: of the value itself or after the header of its tag.
    type H = fn(&[u8]) -> u32;
    let hashes: [(&str, H); 8] = [
        ("FNV-1", |b| b.iter().fold(0x811C_9DC5, |h: u32, x| h.wrapping_mul(0x0100_0193) ^ *x as u32)),
        ("FNV-1a", |b| b.iter().fold(0x811C_9DC5, |h: u32, x| (h ^ *x as u32).wrapping_mul(0x0100_0193))),
        ("djb2", |b| b.iter().fold(5381, |h: u32, x| h.wrapping_mul(33) ^ *x as u32)),
        ("sdbm", |b| b.iter().fold(0, |h: u32, x| h.wrapping_mul(65599).wrapping_add(*x as u32))),
        ("one at a time", |b| {
            let mut h = b.iter().fold(0, |h: u32, x| {
                let h = h.wrapping_add(*x as u32);
                let h = h.wrapping_add(h << 10);
                h ^ h >> 6
            });
            h = h.wrapping_add(h << 3);
            h ^= h >> 11;
            h.wrapping_add(h << 15)
        }),
        ("rotation by 5", |b| b.iter().fold(0, |h: u32, x| h.rotate_left(5) ^ *x as u32)),
        ("rotation by 7 and product", |b| b.iter().fold(0, |h: u32, x| (h.rotate_left(5) ^ *x as u32).wrapping_mul(0x9E37_79B9))),
        ("MurmurHash3", |b| {
            let mut h = 0u32;
            for c in b.chunks(4) {
                let k = c.iter().rev().fold(0, |k: u32, x| k << 8 | *x as u32).wrapping_mul(0xCC9E_2D51).rotate_left(15).wrapping_mul(0x1B87_3593);
                h ^= k;
                if c.len() == 4 {
                    h = h.rotate_left(13).wrapping_mul(5).wrapping_add(0xE654_6B64);
                }
            }
            h ^= b.len() as u32;
            h = (h ^ h >> 16).wrapping_mul(0x85EB_CA6B);
            h = (h ^ h >> 13).wrapping_mul(0xC2B2_AE35);
            h ^ h >> 16
        }),
    ];
    for (name, h) in hashes {
        for prefix in [&[][..], &[16, 12], &[99, 12]] {
            let mut m = std::collections::HashMap::new();
            let mut x = 1u64;
            let mut found = 0;
            for i in 0..400_000u32 {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let v = [&x.to_be_bytes()[..], &i.to_le_bytes()].concat();
                if let Some(u) = m.insert(h(&[prefix, &v[..]].concat()), v.clone()) {
                    out.push((name.to_string(), prefix.len(), u, v));
                    found += 1;
                    if found == 2 {
                        break;
                    }
                }
            }
        }
    }
    out
}
