//! C12: unknown and custom tags are preserved or rejected as configured.
use super::dec::*;
use super::docs::*;
use crate::alpha::*;
use crate::bridge::*;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::tags::standard::factory::create_std_engine;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::collections::BTreeMap;

/// Creator number `n` makes tags of its own kind that carry `n`.
struct Mk(usize);
impl ILTagCreator for Mk {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> {
        made(self.0, id)
    }
}
fn made(n: usize, id: u64) -> Tag {
    match n {
        0 => Box::new(ILStringTag::with_id_value(id, "zero")),
        1 => Box::new(ILUInt8Tag::with_id_value(id, 101)),
        _ => Box::new(ILILInt64Tag::with_id_value(id, 102)),
    }
}
/// What creator `n` decodes from a value of the single byte 7.
fn decoded(n: usize) -> V {
    match n {
        0 => V::Str("\u{7}".into()),
        1 => V::U8(7),
        _ => V::Int(7),
    }
}
const IDS: [u64; 4] = [3, 17, 50, u64::MAX];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cr {
    Mine(usize),
    Std,
}

/// What an engine must create for `id`.
fn expected(map: &BTreeMap<u64, Cr>, strict: bool, id: u64) -> Option<T> {
    match map.get(&id) {
        Some(Cr::Mine(n)) => Some(extract(made(*n, id).as_ref()).expect("harness: extract")),
        Some(Cr::Std) => Some(match id {
            3 => t(V::U8(0)),
            17 => t(V::Str(String::new())),
            _ => panic!("harness: standard id"),
        }),
        None if strict || id < 16 => None,
        None => Some(raw(id, &[])),
    }
}
/// And what it must decode from the tag with that id whose value is the byte 7.
fn expected_decode(map: &BTreeMap<u64, Cr>, strict: bool, id: u64) -> Option<T> {
    Some(T {
        id,
        v: match map.get(&id) {
            Some(Cr::Mine(n)) => decoded(*n),
            Some(Cr::Std) => match id {
                3 => V::U8(7),
                _ => V::Str("\u{7}".into()),
            },
            None if strict || id < 16 => return None,
            None => V::Raw(vec![7]),
        },
    })
}
fn same(tag: Option<Tag>, want: &Option<T>, what: &str) -> R {
    let got = match tag {
        Some(t) => Some(extract(t.as_ref())?),
        None => None,
    };
    ensure_eq!(got, *want, "{}", what);
    Ok(())
}

/// One registration history on `e`, checked after every step.
fn history(ch: &Ch, e: &mut ILTagCreatorEngine, strict: bool, std_base: bool, depth: usize) -> std::result::Result<BTreeMap<u64, Cr>, String> {
    let mut map: BTreeMap<u64, Cr> = BTreeMap::new();
    if std_base {
        map.insert(3, Cr::Std);
        map.insert(17, Cr::Std);
    }
    let mut said = vec![];
    for _ in 0..depth {
        let op = ch.choose(1 + IDS.len() * 4);
        if op == 0 {
            break;
        }
        let id = IDS[(op - 1) / 4];
        let k = (op - 1) % 4;
        let (prev, before) = if k < 3 {
            said.push(format!("register({}, creator {})", id, k));
            (e.register(id, Box::new(Mk(k))), map.insert(id, Cr::Mine(k)))
        } else {
            said.push(format!("deregister({})", id));
            (e.deregister(id), map.remove(&id))
        };
        ch.say(|| said.last().unwrap().clone());
        ch.op();
        // The previous creator comes back: it still makes its own tags.
        let mut one = BTreeMap::new();
        if let Some(b) = before {
            one.insert(id, b);
        }
        let back = prev.map(|c| c.create_empty_tag(id));
        let want = if before.is_some() { expected(&one, true, id) } else { None };
        same(back, &want, &format!("creator returned by {}", said.join("; ")))?;
        for i in IDS {
            same(e.create_tag(i), &expected(&map, strict, i), &format!("create_tag({}) after {}", i, said.join("; ")))?;
        }
        ensure_eq!(e.strict(), strict, "strict() after {}", said.join("; "));
    }
    Ok(map)
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = fs();
    let mut spaces = vec![];
    let depth = if th { 6 } else { 5 };
    spaces.push(space("registry", format!("every history of up to {} registrations and deregistrations over 4 identifiers and 3 creators, empty and standard engine, strict and not", depth), move |ch| {
        let strict = ch.flag();
        let std_base = ch.flag();
        let mut e = if std_base { create_std_engine(strict) } else { ILTagCreatorEngine::new(strict) };
        let m = history(ch, &mut e, strict, std_base, depth)?;
        ch.seen_bytes(format!("{:?}{}", m, strict).as_bytes());
        Ok(())
    }));
    {
        // Far more registrations than any 16-bit count, on one engine.
        spaces.push(space("many", "70000 identifiers (8 progressions) registered on one engine, empty and standard, strict and not, replaced, deregistered and registered again by patterns of period 3: every one of them, at every stage", move |ch| {
            let strict = ch.flag();
            let std_base = ch.flag();
            let (first, gap) = *ch.pick(&[(32u64, 1u64), (40, 256), (50, 65_536), (17, 1 << 32), (100, (1 << 48) + 1), (u64::MAX - 80_000, 1), (1 << 32, 3), (249, 251)]);
            let pat: Vec<usize> = if th { (0..3).map(|_| ch.choose(4)).collect() } else { ch.pick(&[[0usize, 3, 1], [3, 3, 3], [2, 0, 3]]).to_vec() };
            let ids: Vec<u64> = (0..70_000u64).map(|i| first.wrapping_add(i.wrapping_mul(gap))).collect();
            let mut f;
            let mut own;
            let e: &mut ILTagCreatorEngine = if std_base {
                f = ILStandardTagFactory::new(strict);
                f.engine()
            } else {
                own = ILTagCreatorEngine::new(strict);
                &mut own
            };
            let mut map: BTreeMap<u64, Cr> = BTreeMap::new();
            if std_base {
                map.insert(17, Cr::Std);
            }
            let quick = |x: Option<Tag>, want: Option<Cr>, id: u64| -> bool {
                match (x, want) {
                    (None, None) => true,
                    (Some(x), Some(Cr::Mine(n))) => {
                        x.id() == id
                            && match n {
                                0 => x.as_any().downcast_ref::<ILStringTag>().map(|x| x.value() == "zero"),
                                1 => x.as_any().downcast_ref::<ILUInt8Tag>().map(|x| x.value() == 101),
                                _ => x.as_any().downcast_ref::<ILILInt64Tag>().map(|x| x.value() == 102),
                            } == Some(true)
                    }
                    (Some(x), Some(Cr::Std)) => x.id() == id && x.as_any().downcast_ref::<ILStringTag>().map(|x| x.value().is_empty()) == Some(true),
                    _ => false,
                }
            };
            for stage in 0..2 {
                for (i, id) in ids.iter().enumerate() {
                    let k = if stage == 0 { i % 3 } else { pat[i % 3] };
                    let (prev, before) = if k < 3 { (e.register(*id, Box::new(Mk(k))), map.insert(*id, Cr::Mine(k))) } else { (e.deregister(*id), map.remove(id)) };
                    ensure!(prev.is_some() == before.is_some(), "stage {}: number {} ({}) replaces {}, expected {:?}", stage, i, id, prev.is_some(), before);
                    if let Some(p) = prev {
                        ensure!(quick(Some(p.create_empty_tag(*id)), before, *id), "stage {}: number {} ({}) replaces another creator, expected {:?}", stage, i, id, before);
                    }
                }
                for (i, id) in ids.iter().enumerate() {
                    let x = e.create_tag(*id);
                    let ok = match map.get(id) {
                        None if strict || *id < 16 => x.is_none(),
                        None => x.is_some_and(|x| x.id() == *id && x.as_any().is::<ILRawTag>()),
                        Some(c) => quick(x, Some(*c), *id),
                    };
                    ensure!(ok, "stage {}: number {} ({}) is not created as registered ({:?})", stage, i, id, map.get(id));
                }
                ch.ops(2 * ids.len() as u64);
            }
            ch.seen_bytes(format!("{}{}{}{:?}", strict, std_base, first, pat).as_bytes());
            Ok(())
        }));
    }
    let depth = if th { 4 } else { 3 };
    spaces.push(space("registry_decode", format!("every history of up to {} registrations on a factory, then decoding each identifier alone, in every container, and into an existing tag", depth), move |ch| {
        let strict = ch.flag();
        let mut f = ILStandardTagFactory::new(strict);
        let map = history(ch, f.engine(), strict, true, depth)?;
        for id in IDS {
            let want = expected_decode(&map, strict, id);
            let mut b = ilint(id);
            if id >= 16 {
                b.push(1);
            }
            b.push(7);
            same(f.create_tag(id), &expected(&map, strict, id), "factory.create_tag")?;
            let mut check = |b: &[u8], want: &Option<T>| -> R {
                match (f.from_bytes(b), want) {
                    (Ok(t), Some(w)) => {
                        ensure_eq!(extract(t.as_ref())?, *w, "decoding {} after {:?}", hex(b), map);
                        ensure_eq!(t.to_bytes().map_err(|e| format!("{:?}", e))?, b.to_vec(), "serializing {}", hex(b));
                    }
                    (Err(e), None) => ensure_eq!(class(&e), EC::Unknown, "decoding {} after {:?}", hex(b), map),
                    (Ok(t), None) => return Err(format!("{} decodes as {:?} after {:?}", hex(b), extract(t.as_ref()), map)),
                    (Err(e), Some(w)) => return Err(format!("{} fails with {:?} after {:?}, expected {:?}", hex(b), e, map, w)),
                }
                ch.op();
                Ok(())
            };
            check(&b, &want)?;
            // In containers (their ids are never touched by the histories, but
            // dictionary keys do not go through the registry).
            check(&frame(22, &b), &want.clone().map(|x| t(V::Seq(vec![x]))))?;
            check(&frame(21, &[&[1u8][..], &b].concat()), &want.clone().map(|x| t(V::Arr(vec![x]))))?;
            check(&frame(30, &[&[1u8, 17, 1, b'k'][..], &b].concat()), &want.clone().map(|x| dict(&[("k", x)])))?;
            // An existing tag does not depend on the registry.
            let mut y = ILUInt8Tag::with_id_value(id, 9);
            f.deserialize_into(&mut ByteArrayReader::new(&b), &mut y).map_err(|e| format!("into existing: {:?}", e))?;
            ensure_eq!(y.value(), 7, "decoding into an existing tag");
        }
        ch.seen_bytes(format!("{:?}{}", map, strict).as_bytes());
        Ok(())
    }));
    {
        let f = f.clone();
        let top: u64 = if th { 1 << 20 } else { 1 << 16 };
        spaces.push(space("ids", format!("every identifier below {} and the 64-bit edges: kept as raw bytes or unknown, alone and in every container, both modes", top), move |ch| {
            let block = ch.choose((top / 256) as usize + 1) as u64;
            let ids: Vec<u64> = if block < top / 256 { (block * 256..block * 256 + 256).collect() } else { let mut v = u64_edges(); v.extend(crate::alpha::id_aliases()); v };
            for id in &ids {
                let id = *id;
                let known = matches!(id, 0..=14 | 16..=25 | 30 | 31);
                if known {
                    let c = f.strict.create_tag(id).ok_or(format!("strict factory has no tag {}", id))?;
                    ensure_eq!(c.id(), id, "identifier of a created tag");
                    continue;
                }
                let s = f.strict.create_tag(id);
                ensure!(s.is_none(), "strict factory creates unknown tag {}", id);
                same(f.lax.create_tag(id), &if id < 16 { None } else { Some(raw(id, &[])) }, "create_tag")?;
                if id < 16 {
                    let e = f.lax.from_bytes(&[id as u8]).err().ok_or(format!("implicit tag {} decoded", id))?;
                    ensure_eq!(class(&e), EC::Unknown, "implicit tag {}", id);
                    continue;
                }
                let n = (id % 5) as usize + if id % 97 == 0 { 300 } else { 0 };
                let x = raw(id, &fill(n, id));
                for y in [x.clone(), t(V::Seq(vec![x.clone()])), t(V::Arr(vec![t(V::Null), x.clone()])), dict(&[("k", x.clone())]), t(V::Seq(vec![t(V::Arr(vec![dict(&[("a", t(V::Null)), ("b", x.clone())])]))]))] {
                    let b = enc(&y);
                    let d = f.lax.from_bytes(&b).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
                    ensure_eq!(extract(d.as_ref())?, y, "{}", hex(&b));
                    ensure!(d.to_bytes().ok().as_deref() == Some(&b[..]), "{} serializes differently", hex(&b));
                    match f.strict.from_bytes(&b) {
                        Err(e) => ensure_eq!(class(&e), EC::Unknown, "strict decoding of {}", hex(&b)),
                        Ok(_) => return Err(format!("strict factory decodes {}", hex(&b))),
                    }
                }
                ch.ops(10);
            }
            ch.visit(ids.len() as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let leaves = vec![t(V::Null), raw(40, &[1, 2]), raw(0x1F8, &[]), t(V::Str("s".into()))];
        let n = if th { 6 } else { 5 };
        spaces.push(space("nested", format!("every tree of at most {} tags with known and unknown leaves: preserved when not strict; unknown tag error when strict and one is present, decoded otherwise", n), move |ch| {
            let mut k = n;
            let x = tree(ch, &mut k, n, &leaves);
            let b = enc(&x);
            let d = f.lax.from_bytes(&b).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
            ensure_eq!(extract(d.as_ref())?, x, "{}", hex(&b));
            ensure!(d.to_bytes().ok().as_deref() == Some(&b[..]), "{} serializes differently", hex(&b));
            match f.strict.from_bytes(&b) {
                Ok(d) => {
                    ensure!(no_raw(&x), "strict factory decodes {}", hex(&b));
                    ensure_eq!(extract(d.as_ref())?, x, "{}", hex(&b));
                }
                Err(e) => {
                    ensure!(!no_raw(&x), "strict factory refuses {}: {:?}", hex(&b), e);
                    ensure_eq!(class(&e), EC::Unknown, "strict decoding of {}", hex(&b));
                }
            }
            ch.ops(2);
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        // Sizes: the type of a tag depends on its identifier only.
        let f = f.clone();
        let own = own_fs();
        let z = sizes(if th { 200_000 } else { 70_000 });
        spaces.push(space("sized", format!("unknown tags and tags of the user's types of {} sizes up to {}, 1 to 3 in each container, alone and at every place beside a known one, two levels deep: preserved, created by the registration or refused as configured", z.len(), z[z.len() - 1]), move |ch| {
            let n = *ch.pick(&z);
            let (shape, nest) = (ch.choose(6), ch.choose(5));
            let mut cases = 0;
            for which in 0..4 {
                let x = match which {
                    0 => raw(40, &fill(n, 1)),
                    1 => raw(0x1F8, &fill(n, 2)),
                    2 => owned(&t(V::Str("x".repeat(n))), 0),
                    _ => owned(&t(V::Ints(vec![7; n.min(3000)])), 1),
                };
                let k = t(V::U8(1));
                let kids = match shape {
                    0 => vec![x.clone()],
                    1 => vec![x.clone(), k],
                    2 => vec![k, x.clone()],
                    3 => vec![x.clone(), x.clone()],
                    4 => vec![k.clone(), x.clone(), k],
                    _ => vec![x.clone(), k, x.clone()],
                };
                let y = match nest {
                    0..=2 => wrap(nest, kids),
                    3 => wrap(1, vec![wrap(0, kids)]),
                    _ => wrap(0, vec![wrap(1, kids.clone()), wrap(2, kids)]),
                };
                let b = enc(&y);
                for (fac, strict, knows) in [(&f.lax, false, false), (&f.strict, true, false), (&own.lax, false, true), (&own.strict, true, true)] {
                    let want = dec_with(&b, strict, knows);
                    match (fac.from_bytes(&b), want) {
                        (Ok(d), Ok((w, _))) => {
                            ensure!(extract(d.as_ref())? == w, "{} decodes as something else (strict {}, registered {})", hex(&b), strict, knows);
                            ensure!(d.to_bytes().ok().as_deref() == Some(&b[..]), "{} serializes differently", hex(&b));
                        }
                        (Err(e), Err(_)) => ensure_eq!(class(&e), EC::Unknown, "decoding of {} (strict {}, registered {})", hex(&b), strict, knows),
                        (Ok(_), Err(e)) => return Err(format!("{} is decoded, expected {:?} (strict {}, registered {})", hex(&b), e, strict, knows)),
                        (Err(e), Ok(_)) => return Err(format!("{} is refused: {:?} (strict {}, registered {})", hex(&b), e, strict, knows)),
                    }
                    ch.op();
                    cases += 1;
                }
            }
            ch.visit(cases - 1);
            ch.seen(n as u64);
            Ok(())
        }));
    }
    // The standard types registered for identifiers of the user.
    let custom: Vec<T> = extremes().into_iter().chain(kinds()).filter(|x| !matches!(x.v, V::Raw(_) | V::Bytes(_) | V::BigInt(_)) && enc(x).len() < 400).collect();
    spaces.push(space("custom_types", format!("{} values of every standard type registered under identifiers of the user, alone, nested, truncated and with a byte too many", custom.len()), move |ch| {
        let mut x = ch.pick(&custom).clone();
        let id = *ch.pick(&[32u64, 50, 247, 248, 0x1F8, 70000, u64::MAX]);
        let strict = ch.flag();
        let kind = x.v.clone();
        x.id = id;
        let mut f = ILStandardTagFactory::new(strict);
        macro_rules! reg {
            ($($p:pat => $ty:ty),*) => { match &kind { $( $p => { f.engine().register(id, Box::new(ILDefaultWithIdTagCreator::<$ty>::new())); } )* _ => return Err("harness: kind".into()) } };
        }
        reg!(V::Null => ILNullTag, V::Bool(_) => ILBoolTag, V::I8(_) => ILInt8Tag, V::U8(_) => ILUInt8Tag, V::I16(_) => ILInt16Tag, V::U16(_) => ILUInt16Tag,
            V::I32(_) => ILInt32Tag, V::U32(_) => ILUInt32Tag, V::I64(_) => ILInt64Tag, V::U64(_) => ILUInt64Tag, V::Int(_) => ILILInt64Tag, V::F32(_) => ILBin32Tag,
            V::F64(_) => ILBin64Tag, V::F128(_) => ILBin128Tag, V::SInt(_) => ILSignedILInt64Tag, V::Str(_) => ILStringTag, V::BigDec(..) => ILBigDecTag,
            V::Ints(_) => ILILIntArrayTag, V::Oid(_) => ILOIDTag, V::Arr(_) => ILTagArrayTag, V::Seq(_) => ILTagSeqTag, V::Range(..) => ILRangeTag, V::Ver(_) => ILVersionTag,
            V::Dict(_) => ILDictTag, V::SDict(_) => ILStrDictTag);
        let b = enc(&x);
        ensure!(build(&x).to_bytes().ok().as_deref() == Some(&b[..]), "{:?} serializes differently", x);
        ensure_eq!(build(&x).size(), b.len() as u64, "size of {:?}", x);
        for y in [x.clone(), t(V::Seq(vec![x.clone(), t(V::U8(1))])), t(V::Arr(vec![x.clone(), x.clone()])), dict(&[("k", x.clone()), ("l", t(V::Null))])] {
            let b = enc(&y);
            let has_raw = !no_raw(&y);
            match f.from_bytes(&b) {
                Ok(d) => {
                    ensure!(!(strict && has_raw), "strict factory decodes {}", hex(&b));
                    ensure_eq!(extract(d.as_ref())?, y, "{}", hex(&b));
                    ensure!(d.to_bytes().ok().as_deref() == Some(&b[..]), "{} serializes differently", hex(&b));
                }
                Err(e) => ensure!(strict && has_raw, "{} is refused: {:?}", hex(&b), e),
            }
        }
        // One byte less or more than declared, and declared as one less or more.
        let v = enc_value(&x.v);
        let open_ended = matches!(x.v, V::Str(_) | V::BigDec(..) | V::Seq(_));
        let tolerant = |d: &[u8]| -> bool { f.from_bytes(d).is_ok() };
        let mut more = v.clone();
        more.push(0xFF);
        ensure!(open_ended || !tolerant(&frame(id, &more)), "{:?}: a byte too many in the value is accepted", x);
        if !v.is_empty() {
            let less = &v[..v.len() - 1];
            ensure!(open_ended || !tolerant(&frame(id, less)), "{:?}: a byte missing in the value is accepted", x);
            ensure!(!tolerant(&b[..b.len() - 1]), "{:?}: truncated data is accepted", x);
        }
        ch.ops(7);
        ch.seen_bytes(&b);
        Ok(())
    }));
    {
        let f2 = f.clone();
        let lax = own_factory(false);
        let strict = own_factory(true);
        let leaves = vec![t(V::Null), raw(40, &[1, 2]), t(V::Int(300)), t(V::Str("s".into())), t(V::Ver([1, 2, 3, 4]))];
        let n = if th { 6 } else { 5 };
        spaces.push(space("custom_trees", format!("every tree of at most {} tags, all or some of them standard types under identifiers of the user, and unknown ones: created by the user's registration, unknown ones as configured; with the standard factory all of them raw or unknown", n), move |ch| {
            let mut k = n;
            let x = tree(ch, &mut k, n, &leaves);
            for base in [0, 1, 2, 3] {
                let y = owned(&x, base);
                let b = enc(&y);
                let d = lax.from_bytes(&b).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
                ensure_eq!(extract(d.as_ref())?, y, "{}", hex(&b));
                ensure!(d.to_bytes().ok().as_deref() == Some(&b[..]), "{} serializes differently", hex(&b));
                match strict.from_bytes(&b) {
                    Ok(d) => {
                        ensure!(no_raw(&x), "strict factory decodes {}", hex(&b));
                        ensure_eq!(extract(d.as_ref())?, y, "{}", hex(&b));
                    }
                    Err(e) => {
                        ensure!(!no_raw(&x), "strict factory refuses {}: {:?}", hex(&b), e);
                        ensure_eq!(class(&e), EC::Unknown, "strict decoding of {}", hex(&b));
                    }
                }
                // A factory that knows none of these identifiers.
                let (z, _) = dec(&b, false).map_err(|e| format!("harness: {:?}", e))?;
                let d = f2.lax.from_bytes(&b).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
                ensure_eq!(extract(d.as_ref())?, z, "{} with the standard factory", hex(&b));
                ensure!(d.to_bytes().ok().as_deref() == Some(&b[..]), "{} serializes differently", hex(&b));
                ch.ops(4);
                ch.seen_bytes(&b);
            }
            ch.visit(3);
            Ok(())
        }));
    }
    Prop { id: "C12", spaces, assumptions: vec![] }
}
