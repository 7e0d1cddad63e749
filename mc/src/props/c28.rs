//! C28: the cost of measuring, writing and copying nested tags is not exponential.
use super::docs::*;
use crate::alloc;
use crate::bridge::*;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::any::Any;
use std::cell::Cell;

thread_local! {
    /// Elementary steps so far: measurements and writes of leaves, reads, writes.
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
fn step() {
    let n = STEPS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if n > LIMIT.with(|l| l.get()) {
        // Ends an exponential computation.
        panic!("more than {} steps", n - 1);
    }
}
fn on_alloc() {
    ALLOCS.with(|a| a.set(a.get() + 1));
}
/// First byte of a leaf that fails when written, when read.
const UNWRITABLE: u8 = 0xEE;
const UNREADABLE: u8 = 0xDD;
const N_ERRORS: usize = 8;
fn refused(b: &[u8], mark: u8) -> Result<()> {
    if b.len() < 2 || b[0] != mark {
        return Ok(());
    }
    Err(match b[1] {
        0 => ErrorKind::CorruptedData,
        1 => ErrorKind::UnknownTag,
        2 => ErrorKind::TagTooLarge,
        3 => ErrorKind::UnexpectedTagType,
        4 => ErrorKind::UnableToSerialize,
        5 => ErrorKind::IOError(il2_iltags::io::ErrorKind::UnableToReadData),
        6 => ErrorKind::IOError(il2_iltags::io::ErrorKind::IOError(std::io::ErrorKind::TimedOut.into())),
        _ => ErrorKind::Boxed("refused".into()),
    })
}
/// `x` with the bytes of its last leaf, if it has one, replaced.
fn with_last(x: &T, b: &[u8]) -> Option<T> {
    let v = match &x.v {
        V::Raw(_) => V::Raw(b.to_vec()),
        V::Seq(a) | V::Arr(a) => {
            let mut a = a.clone();
            let (i, y) = a.iter().enumerate().rev().find_map(|(i, e)| with_last(e, b).map(|y| (i, y)))?;
            a[i] = y;
            if matches!(x.v, V::Seq(_)) {
                V::Seq(a)
            } else {
                V::Arr(a)
            }
        }
        V::Dict(m) => {
            let mut m = m.clone();
            let (k, y) = m.iter().rev().find_map(|(k, e)| with_last(e, b).map(|y| (k.clone(), y)))?;
            m.insert(k, y);
            V::Dict(m)
        }
        _ => return None,
    };
    Some(T { id: x.id, v })
}
/// What fails is no more expensive than what succeeds.
fn cost_of_failures(ch: &Ch, x: &T, f: &ILStandardTagFactory, strict: &ILStandardTagFactory) -> R {
    let n = tags(x);
    let show = || {
        let s = format!("{:?}", x);
        if s.len() > 300 {
            format!("{}...", s.chars().take(300).collect::<String>())
        } else {
            s
        }
    };
    if with_last(x, &[]).is_none() {
        return Ok(());
    }
    let tag = made(x);
    ensure!(bounded(n, "copy with an unknown tag inside", &show, || iltag_clone_with_factory(strict, tag.as_ref()))?.is_err(), "copy of an unknown tag in {}", show());
    for k in 0..N_ERRORS {
        let y = with_last(x, &[UNREADABLE, k as u8]).unwrap();
        let tag = made(&y);
        let b = enc(&y);
        ensure!(bounded(n, "copy of a tag that cannot be read", &show, || iltag_clone_with_factory(f, tag.as_ref()))?.is_err(), "copy of {}", show());
        let mut r = Rd(ByteArrayReader::new(&b));
        ensure!(bounded(n, "decoding of what cannot be read", &show, || f.deserialize(&mut r))?.is_err(), "decoding of {}", show());
        let y = with_last(x, &[UNWRITABLE, k as u8]).unwrap();
        let tag = made(&y);
        let twin = made(&y);
        let mut w = W(vec![]);
        ensure!(bounded(n, "serialization of what cannot be written", &show, || tag.serialize(&mut w))?.is_err(), "serialization of {}", show());
        ensure!(bounded(n, "conversion of what cannot be written", &show, || tag.to_bytes())?.is_err(), "conversion of {}", show());
        ensure!(!bounded(n, "comparison of what cannot be written", &show, || iltag_are_equal(tag.as_ref(), twin.as_ref()))?, "comparison of {}", show());
        ensure!(bounded(n, "copy of what cannot be written", &show, || iltag_clone_with_factory(f, tag.as_ref()))?.is_err(), "copy of {}", show());
        ch.ops(6);
    }
    Ok(())
}
/// A leaf that counts what is asked of it.
struct Leaf(Vec<u8>);
impl ILTag for Leaf {
    fn id(&self) -> u64 {
        90
    }
    fn value_size(&self) -> u64 {
        step();
        self.0.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        step();
        refused(&self.0, UNWRITABLE)?;
        Ok(w.write_all(&self.0)?)
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        step();
        self.0 = vec![0; n];
        r.read_all(&mut self.0)?;
        refused(&self.0, UNREADABLE)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
impl DefaultWithId for Leaf {
    fn default_with_id(_: u64) -> Self {
        Leaf(vec![])
    }
}
/// A writer and a reader that count their calls.
struct W(Vec<u8>);
impl Writer for W {
    fn write(&mut self, v: u8) -> il2_iltags::io::Result<()> {
        step();
        self.0.push(v);
        Ok(())
    }
    fn write_all(&mut self, b: &[u8]) -> il2_iltags::io::Result<()> {
        step();
        self.0.extend_from_slice(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}
struct Rd<'a>(ByteArrayReader<'a>);
impl<'a> Reader for Rd<'a> {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        step();
        self.0.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> il2_iltags::io::Result<()> {
        step();
        self.0.read_all(b)
    }
    fn skip(&mut self, n: usize) -> il2_iltags::io::Result<()> {
        step();
        self.0.skip(n)
    }
}
/// The tag for `x`, every raw tag a counting leaf.
fn made(x: &T) -> Tag {
    match &x.v {
        V::Raw(b) => Box::new(Leaf(b.clone())),
        V::Seq(a) => {
            let mut y = ILTagSeqTag::with_id(x.id);
            for e in a {
                y.mut_value().push(made(e));
            }
            Box::new(y)
        }
        V::Arr(a) => {
            let mut y = ILTagArrayTag::with_id(x.id);
            for e in a {
                y.mut_value().push(made(e));
            }
            Box::new(y)
        }
        V::Dict(m) => {
            let mut y = ILDictTag::with_id(x.id);
            for (k, e) in m {
                y.insert(k, made(e));
            }
            Box::new(y)
        }
        _ => build(x),
    }
}
fn tags(x: &T) -> u64 {
    1 + match &x.v {
        V::Arr(a) | V::Seq(a) => a.iter().map(tags).sum::<u64>(),
        V::Dict(m) => m.values().map(|v| 1 + tags(v)).sum::<u64>(),
        _ => 0,
    }
}
/// Runs one operation and bounds its steps and allocations.
fn bounded<X>(n: u64, what: &str, x: &dyn Fn() -> String, f: impl FnOnce() -> X) -> std::result::Result<X, String> {
    // Quadratic, with room for a constant number of passes over the tree and of
    // calls per tag: 40 for small trees, so that no small constant matters.
    let limit = 8 * n * n + 40 * n + 200;
    STEPS.with(|s| s.set(0));
    LIMIT.with(|l| l.set(limit));
    ALLOCS.with(|a| a.set(0));
    alloc::set_hook(Some(on_alloc));
    let r = guarded(f);
    alloc::set_hook(None);
    LIMIT.with(|l| l.set(u64::MAX));
    let a = ALLOCS.with(|a| a.get());
    let r = r.map_err(|m| format!("{} of {} nested tags ({}): {}", what, n, x(), m))?;
    ensure!(a <= limit, "{} of {} nested tags ({}): {} allocations, expected at most {}", what, n, x(), a, limit);
    Ok(r)
}
fn cost(ch: &Ch, x: &T, f: &ILStandardTagFactory) -> R {
    let n = tags(x);
    let tag = made(x);
    let b = enc(x);
    let show = || {
        let s = format!("{:?}", x);
        if s.len() > 300 {
            format!("{}...", s.chars().take(300).collect::<String>())
        } else {
            s
        }
    };
    let e = |e: ErrorKind| format!("{:?}", e);
    let s = bounded(n, "size", &show, || tag.size())?;
    ensure_eq!(s, b.len() as u64, "size of {}", show());
    let steps = STEPS.with(|s| s.get());
    bounded(n, "value size", &show, || tag.value_size())?;
    let mut w = W(vec![]);
    bounded(n, "serialization", &show, || tag.serialize(&mut w))?.map_err(e)?;
    let wsteps = STEPS.with(|s| s.get());
    ensure!(w.0 == b, "bytes of {}", show());
    let y = bounded(n, "conversion to bytes", &show, || tag.to_bytes())?.map_err(e)?;
    ensure!(y == b, "bytes of {}", show());
    let twin = made(x);
    ensure!(bounded(n, "comparison", &show, || iltag_are_equal(tag.as_ref(), twin.as_ref()))?, "comparison of {}", show());
    let c = bounded(n, "copy", &show, || iltag_clone(tag.as_ref()))?.map_err(e)?;
    let c2 = bounded(n, "copy", &show, || iltag_clone_with_factory(f, tag.as_ref()))?.map_err(e)?;
    ensure!(c.size() == s && c2.size() == s, "size of a copy of {}", show());
    let mut r = Rd(ByteArrayReader::new(&b));
    bounded(n, "decoding", &show, || f.deserialize(&mut r))?.map_err(e)?;
    let mut into = match &x.v {
        V::Seq(_) => Box::new(ILTagSeqTag::with_id(x.id)) as Tag,
        V::Arr(_) => Box::new(ILTagArrayTag::with_id(x.id)),
        V::Dict(_) => Box::new(ILDictTag::with_id(x.id)),
        _ => Box::new(Leaf(vec![])),
    };
    let mut r = Rd(ByteArrayReader::new(&b));
    bounded(n, "decoding into an existing tag", &show, || f.deserialize_into(&mut r, into.as_mut()))?.map_err(e)?;
    // Damaged at the innermost place: the failure is no more expensive.
    let cut = &b[..b.len() - 1];
    ensure!(bounded(n, "decoding of cut data", &show, || f.from_bytes(cut))?.is_err(), "cut data of {} is accepted", show());
    ch.ops(10);
    ch.seen(steps << 32 | wsteps);
    ch.say(|| format!("{} tags: {} steps to measure, {} to write", n, steps, wsteps));
    ch.sample(|| format!("{} tags: {} steps to measure, {} to write", n, steps, wsteps));
    Ok(())
}
fn leaf() -> T {
    raw(90, &[1, 2])
}
/// The containers of `x` with identifiers of the user's own.
fn own_ids(x: &T) -> T {
    match &x.v {
        V::Seq(a) => T { id: 91, v: V::Seq(a.iter().map(own_ids).collect()) },
        V::Arr(a) => T { id: 92, v: V::Arr(a.iter().map(own_ids).collect()) },
        V::Dict(m) => T { id: 93, v: V::Dict(m.iter().map(|(k, v)| (k.clone(), own_ids(v))).collect()) },
        _ => x.clone(),
    }
}
fn fac() -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(false);
    f.engine().register(90, Box::new(ILDefaultWithIdTagCreator::<Leaf>::default()));
    f.engine().register(91, Box::new(ILDefaultWithIdTagCreator::<ILTagSeqTag>::default()));
    f.engine().register(92, Box::new(ILDefaultWithIdTagCreator::<ILTagArrayTag>::default()));
    f.engine().register(93, Box::new(ILDefaultWithIdTagCreator::<ILDictTag>::default()));
    f
}
/// The same, without the leaf.
fn fac_strict() -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(true);
    f.engine().register(91, Box::new(ILDefaultWithIdTagCreator::<ILTagSeqTag>::default()));
    f.engine().register(92, Box::new(ILDefaultWithIdTagCreator::<ILTagArrayTag>::default()));
    f.engine().register(93, Box::new(ILDefaultWithIdTagCreator::<ILDictTag>::default()));
    f
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];

    {
        let d = if th { 120 } else { 48 };
        spaces.push(
            space("chains", format!("chains of every depth up to {}, every pattern of container kinds of period 3, with and without siblings at every level, with standard and custom identifiers: steps and allocations of measuring, writing, comparing, copying, decoding, and of each of these when the innermost tag is unknown or fails with one of 8 errors", d), move |ch| {
                let n = 1 + ch.choose(d);
                let pat = [ch.choose(3), ch.choose(3), ch.choose(3)];
                let both = ch.flag();
                let mut x = leaf();
                for i in 0..n {
                    let kids = if both { vec![leaf(), x, leaf()] } else { vec![x] };
                    x = wrap(pat[i % 3], kids);
                }
                if ch.flag() {
                    x = own_ids(&x);
                }
                cost(ch, &x, &fac())?;
                cost_of_failures(ch, &x, &fac(), &fac_strict())
            })
            .limit(30),
        );
        let n = if th { 10 } else { 8 };
        spaces.push(
            space("patterns", format!("every chain over the three container kinds to depth {}", n), move |ch| {
                let d = ch.choose(n + 1);
                let mut x = leaf();
                for _ in 0..d {
                    x = wrap(ch.choose(3), vec![x]);
                }
                // Repeated, so that exponential growth shows.
                let kinds: Vec<usize> = {
                    let mut v = vec![];
                    let mut y = &x;
                    while let Some((k, z)) = match &y.v {
                        V::Seq(a) => a.first().map(|z| (0, z)),
                        V::Arr(a) => a.first().map(|z| (1, z)),
                        V::Dict(m) => m.values().next().map(|z| (2, z)),
                        _ => None,
                    } {
                        v.push(k);
                        y = z;
                    }
                    v
                };
                if !kinds.is_empty() {
                    for i in 0..40 {
                        x = wrap(kinds[i % kinds.len()], vec![x]);
                    }
                }
                cost(ch, &x, &fac())?;
                cost_of_failures(ch, &x, &fac(), &fac_strict())
            })
            .limit(30),
        );
        let n = if th { 400 } else { 250 };
        spaces.push(
            space("deep", format!("chains of depth {} of every pattern of container kinds of period 2", n), move |ch| {
                let pat = [ch.choose(3), ch.choose(3)];
                let mut x = leaf();
                for i in 0..n {
                    x = wrap(pat[i % 2], vec![x]);
                }
                if ch.flag() {
                    x = own_ids(&x);
                }
                cost(ch, &x, &fac())?;
                cost_of_failures(ch, &x, &fac(), &fac_strict())
            })
            .stack(256 << 20)
            .limit(60),
        );
    }
    {
        let n = if th { 7 } else { 6 };
        let leaves = [leaf()];
        spaces.push(space("trees", format!("every tree of at most {} tags over counting leaves and the three containers, at the bottom of 0 and 24 further levels", n), move |ch| {
            let mut b = n;
            let mut x = tree(ch, &mut b, n, &leaves);
            let lift = ch.choose(4);
            if lift > 0 {
                for _ in 0..24 {
                    x = wrap(lift - 1, vec![x]);
                }
            }
            if lift != 0 && ch.flag() {
                x = own_ids(&x);
            }
            cost(ch, &x, &fac())?;
            if lift > 0 && th {
                cost_of_failures(ch, &x, &fac(), &fac_strict())?;
            }
            Ok(())
        }));
        let d = if th { 11 } else { 9 };
        spaces.push(space("full", format!("full trees with 2 to 4 branches of every container kind to depth {} (at most 2000 tags)", d), move |ch| {
            let k = 2 + ch.choose(3);
            let depth = ch.choose(d + 1);
            if k.pow(depth as u32) > 2000 {
                return Ok(());
            }
            let pat = [ch.choose(3), ch.choose(3)];
            let mut x = leaf();
            for i in 0..depth {
                x = wrap(pat[i % 2], vec![x; k]);
            }
            cost(ch, &x, &fac())?;
                cost_of_failures(ch, &x, &fac(), &fac_strict())
        }));
        spaces.push(space("wide", "1 to 3000 leaves side by side in every container kind, at the bottom of 0 to 30 levels", |ch| {
            let n = *ch.pick(&[1usize, 2, 10, 247, 248, 300, 1000, 3000]);
            let up = *ch.pick(&[0usize, 1, 5, 30]);
            let pat = [ch.choose(3), ch.choose(3)];
            let mut x = wrap(pat[0], vec![leaf(); n]);
            for _ in 0..up {
                x = wrap(pat[1], vec![x]);
            }
            cost(ch, &x, &fac())?;
                cost_of_failures(ch, &x, &fac(), &fac_strict())
        }));
    }
    Prop { id: "C28", spaces, assumptions: vec!["a step is a measurement or write of a leaf, a call of the reader or writer, or an allocation; at most 8 n^2 + 40 n + 200 of them for n tags".into()] }
}
