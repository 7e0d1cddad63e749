//! C15: tag mutators and accessors behave as a plain value.
use super::docs::*;
use super::mach::*;
use crate::bridge::*;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::sync::Arc;

fn observe(tag: &dyn ILTag, m: &T, what: &dyn Fn() -> String) -> R {
    let got = extract(tag)?;
    if got != *m {
        return Err(format!("{}: holds {:?}, expected {:?}", what(), got, m));
    }
    ensure_eq!(tag.id(), m.id, "id after {}", what());
    ensure_eq!(tag.is_implicity(), m.id < 16, "is_implicity after {}", what());
    ensure_eq!(tag.is_reserved(), m.id < 32, "is_reserved after {}", what());
    let v = enc_value(&m.v);
    ensure_eq!(tag.value_size(), v.len() as u64, "value size after {}", what());
    let b = enc(m);
    ensure_eq!(tag.size(), b.len() as u64, "size after {}", what());
    match tag.to_bytes() {
        Ok(x) => if x != b { return Err(format!("{}: serializes as {}, expected {}", what(), hex(&x), hex(&b))) },
        Err(e) => return Err(format!("{}: {:?}", what(), e)),
    }
    let mut w = VecWriter::new();
    tag.serialize_value(&mut w).map_err(|e| format!("{}: {:?}", what(), e))?;
    ensure_eq!(w.as_slice(), &v[..], "value serialized after {}", what());
    if let Some(x) = tag.as_any().downcast_ref::<ILVersionTag>() {
        ensure_eq!(*x.value(), [x.major(), x.minor(), x.revision(), x.build()], "value() after {}", what());
        ensure_eq!([x.value()[ILVersionTag::MAJOR], x.value()[ILVersionTag::MINOR], x.value()[ILVersionTag::REVISION], x.value()[ILVersionTag::BUILD]], *x.value(), "field numbers after {}", what());
    }
    if let (Some(x), V::Dict(v)) = (tag.as_any().downcast_ref::<ILDictTag>(), &m.v) {
        ensure_eq!((x.len(), x.is_empty()), (v.len(), v.is_empty()), "len() and is_empty() after {}", what());
        for k in v.keys().map(|k| k.as_str()).chain(["", "a", "b", "B", "ab", "zz"]) {
            let got = match x.get(k) {
                Some(y) => Some(extract(y)?),
                None => None,
            };
            ensure_eq!(got.as_ref(), v.get(k), "get({:?}) after {}", k, what());
        }
    }
    if let (Some(x), V::SDict(v)) = (tag.as_any().downcast_ref::<ILStrDictTag>(), &m.v) {
        ensure_eq!((x.len(), x.is_empty()), (v.len(), v.is_empty()), "len() and is_empty() after {}", what());
        for k in v.keys().map(|k| k.as_str()).chain(["", "a", "b", "B", "ab", "zz"]) {
            ensure_eq!(x.get(k), v.get(k).map(|y| y.as_str()), "get({:?}) after {}", k, what());
        }
    }
    if !matches!(m.v, V::Bytes(_) | V::BigInt(_)) || m.id == 16 || m.id == 18 {
        ensure!(iltag_are_equal(tag, build(m).as_ref()), "{}: not equal to a fresh tag with the same value", what());
    }
    Ok(())
}

/// Puts `y` in place of `x` in `tag`: 0 with the setter (or by clearing and filling),
/// 1 as a whole through the mutable value, 2 by appending it, 3 by cutting what is
/// there in half. Returns the value to expect.
fn put(tag: &mut dyn ILTag, x: &T, y: &T, how: usize) -> Option<T> {
    let id = x.id;
    let any = tag.as_mut_any();
    macro_rules! vector {
        ($v:expr, $a:expr, $b:expr, $set:expr) => {{
            match how {
                0 => {
                    $set;
                    $b.clone()
                }
                1 => {
                    *$v.mut_value() = $b.clone();
                    $b.clone()
                }
                2 => {
                    $v.mut_value().extend_from_slice($b);
                    [&$a[..], &$b[..]].concat()
                }
                _ => {
                    let n = $a.len() / 2;
                    $v.mut_value().truncate(n);
                    $a[..n].to_vec()
                }
            }
        }};
    }
    let v = match (&x.v, &y.v) {
        (V::Bytes(a), V::Bytes(b)) => {
            let g = any.downcast_mut::<ILByteArrayTag>()?;
            V::Bytes(vector!(g, a, b, { g.mut_value().clear(); g.mut_value().extend(b) }))
        }
        (V::BigInt(a), V::BigInt(b)) => {
            let g = any.downcast_mut::<ILBigIntTag>()?;
            V::BigInt(vector!(g, a, b, { g.mut_value().clear(); g.mut_value().extend(b) }))
        }
        (V::BigDec(s, a), V::BigDec(z, b)) => {
            let g = any.downcast_mut::<ILBigDecTag>()?;
            if how < 2 {
                g.set_scale(*z);
            }
            V::BigDec(if how < 2 { *z } else { *s }, vector!(g, a, b, { g.mut_value().clear(); g.mut_value().extend(b) }))
        }
        (V::Raw(a), V::Raw(b)) => {
            let g = any.downcast_mut::<ILRawTag>()?;
            V::Raw(vector!(g, a, b, g.set_value(b)))
        }
        (V::Ints(a), V::Ints(b)) => {
            let g = any.downcast_mut::<ILILIntArrayTag>()?;
            V::Ints(vector!(g, a, b, g.set_value(b)))
        }
        (V::Oid(a), V::Oid(b)) => {
            let g = any.downcast_mut::<ILOIDTag>()?;
            V::Oid(vector!(g, a, b, g.set_value(b)))
        }
        (V::Str(a), V::Str(b)) => {
            let g = any.downcast_mut::<ILStringTag>()?;
            V::Str(match how {
                0 => {
                    g.set_value(b);
                    b.clone()
                }
                1 => {
                    *g.mut_value() = b.clone();
                    b.clone()
                }
                2 => {
                    g.mut_value().push_str(b);
                    format!("{}{}", a, b)
                }
                _ => {
                    g.mut_value().truncate(a.len() / 2);
                    a[..a.len() / 2].to_string()
                }
            })
        }
        (V::Arr(a), V::Arr(b)) | (V::Seq(a), V::Seq(b)) => {
            let tags = || b.iter().map(build).collect::<Vec<Tag>>();
            let arr = matches!(x.v, V::Arr(_));
            let own: &mut Vec<Tag> = if arr { any.downcast_mut::<ILTagArrayTag>()?.mut_value() } else { any.downcast_mut::<ILTagSeqTag>()?.mut_value() };
            let w = match how {
                0 => {
                    own.clear();
                    own.extend(tags());
                    b.clone()
                }
                1 => {
                    *own = tags();
                    b.clone()
                }
                2 => {
                    own.extend(tags());
                    [&a[..], &b[..]].concat()
                }
                _ => {
                    own.truncate(a.len() / 2);
                    a[..a.len() / 2].to_vec()
                }
            };
            if arr { V::Arr(w) } else { V::Seq(w) }
        }
        (V::Dict(a), V::Dict(b)) => {
            let g = any.downcast_mut::<ILDictTag>()?;
            let mut w = a.clone();
            if how > 1 {
                return None;
            }
            if how == 0 {
                g.mut_value().clear();
                w.clear();
            }
            for (k, v) in b {
                g.insert(k, build(v));
                w.insert(k.clone(), v.clone());
            }
            V::Dict(w)
        }
        (V::SDict(a), V::SDict(b)) => {
            let g = any.downcast_mut::<ILStrDictTag>()?;
            let mut w = a.clone();
            if how > 1 {
                return None;
            }
            if how == 0 {
                g.mut_value().clear();
                w.clear();
            }
            for (k, v) in b {
                g.insert(k, v);
                w.insert(k.clone(), v.clone());
            }
            V::SDict(w)
        }
        _ => return None,
    };
    Some(T { id, v })
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let ms = Arc::new(machines());
    let depth = if th { 5 } else { 4 };
    let mut spaces = vec![];
    let total_ops: usize = ms.iter().map(|m| m.ops.len()).sum();
    let ms1 = ms.clone();
    spaces.push(space("histories", format!("{} tag types: every constructor x every history of up to {} mutations and decodes ({} operations in all), observed after every step and only at the end", ms.len(), depth, total_ops), move |ch| {
        let m = ch.pick(&ms1);
        let every = ch.flag();
        let (cn, c) = ch.pick(&m.ctors);
        let (mut tag, mut model) = c();
        let mut hist: Vec<&str> = vec![cn];
        ch.say(|| format!("{}::{}", m.name, cn));
        if every {
            observe(tag.as_ref(), &model, &|| format!("{}::{}", m.name, cn))?;
        }
        for _ in 0..depth {
            let k = ch.choose(m.ops.len() + 1);
            if k == 0 {
                break;
            }
            let (n, f) = &m.ops[k - 1];
            let before = model.clone();
            hist.push(n);
            ch.say(|| n.to_string());
            f(tag.as_mut(), &mut model.v);
            ch.op();
            if every {
                observe(tag.as_ref(), &model, &|| format!("{}: {}", m.name, hist.join("; ")))?;
                if enc(&before) != enc(&model) && !(matches!(before.v, V::Bytes(_) | V::BigInt(_)) && before.id != 16 && before.id != 18) {
                    ensure!(!iltag_are_equal(tag.as_ref(), build(&before).as_ref()), "{}: {} still equals its earlier value", m.name, hist.join("; "));
                }
            }
        }
        observe(tag.as_ref(), &model, &|| format!("{}: {}", m.name, hist.join("; ")))?;
        ch.seen_bytes(&enc(&model));
        Ok(())
    }));
    {
        // One tag changed more often than any 16-bit count (less often when it grows).
        let ms = ms.clone();
        spaces.push(space("repeated", format!("{} tag types: every pair of mutations and decodes made in turn on one tag 66000 times, or until it takes 6000 bytes", ms.len()), move |ch| {
            let m = ch.pick(&ms);
            let pair = [ch.pick(&m.ops), ch.pick(&m.ops)];
            let (cn, c) = &m.ctors[0];
            let (mut tag, mut model) = c();
            let what = |i: usize| format!("{}::{}: {} and {} in turn, {} in all", m.name, cn, pair[0].0, pair[1].0, i + 1);
            for i in 0..66_000usize {
                (pair[i % 2].1)(tag.as_mut(), &mut model.v);
                if i % 256 < 2 || i > 65_500 {
                    observe(tag.as_ref(), &model, &|| what(i))?;
                    if enc(&model).len() > 6000 {
                        break;
                    }
                }
                ch.op();
            }
            observe(tag.as_ref(), &model, &|| what(65_999))?;
            ch.seen_bytes(&enc(&model));
            Ok(())
        }));
    }
    {
        // Every id given at construction.
        let ids = crate::alpha::u64_edges();
        let ms2 = Arc::new(kinds());
        spaces.push(space("ids", format!("{} identifiers x every type constructed with it: identifier, classification, size and bytes", ids.len()), move |ch| {
            let id = *ch.pick(&ids);
            let mut n = 0;
            for x in ms2.iter() {
                if matches!(x.v, V::Bytes(_) | V::BigInt(_)) || (id < 16 && matches!(x.v, V::Raw(_) | V::BigDec(..))) {
                    continue;
                }
                let y = T { id, v: x.v.clone() };
                observe(build(&y).as_ref(), &y, &|| format!("{:?} built with its id", y))?;
                n += 1;
            }
            ch.ops(n);
            ch.visit(n - 1);
            ch.seen(id);
            Ok(())
        }));
    }
    {
        // Values of every size put in place of values of every size.
        let z = sizes(if th { 20_000 } else { 1600 });
        spaces.push(space("sizes", format!("every type of variable length: {} sizes up to {} replaced by as many through each mutator, grown and cut in place", z.len(), z[z.len() - 1]), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            for m in &z {
                if n + m > 1100 && kind >= 9 {
                    continue;
                }
                let (x, y) = (sized_alt(kind, n, 1), sized(kind, *m));
                for how in 0..4 {
                    let mut tag = build(&x);
                    let want = match put(tag.as_mut(), &x, &y, how) {
                        Some(w) => w,
                        None => break,
                    };
                    let r = observe(tag.as_ref(), &want, &|| format!("kind {} of size {} replaced by size {} in way {}", kind, n, m, how));
                    if let Err(e) = r {
                        return Err(e.chars().take(600).collect());
                    }
                    ch.op();
                }
            }
            ch.visit(z.len() as u64 - 1);
            ch.seen((kind * 100_000 + n) as u64);
            Ok(())
        }));
    }
    {
        // Values that differ in one place put in place of each other.
        let z: Vec<usize> = (1..=40).chain([63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 600, 1000, 1025]).chain(if th { vec![4095, 4096, 4097, 65_536, 70_000] } else { vec![4096] }).collect();
        spaces.push(space("near", format!("every type of variable length: {} sizes up to {}, each value replaced by one that differs from it in one place (every place of short ones), and put back, by the setter and as a whole", z.len(), z[z.len() - 1]), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 9 && n > 300 {
                return Ok(());
            }
            let x = sized(kind, n);
            let at: Vec<usize> = if n <= 128 { (0..n).collect() } else { places(n) };
            for p in &at {
                let y = match changed(&x, *p) {
                    Some(y) => y,
                    None => continue,
                };
                for how in 0..2 {
                    let mut tag = build(&x);
                    for (i, (a, b)) in [(&x, &y), (&y, &x), (&x, &x), (&x, &y)].iter().enumerate() {
                        match put(tag.as_mut(), a, b, how) {
                            Some(want) => {
                                let r = observe(tag.as_ref(), &want, &|| format!("kind {} of size {}: change {} at place {} in way {}", kind, n, i, p, how));
                                if let Err(e) = r {
                                    return Err(e.chars().take(600).collect());
                                }
                            }
                            None => break,
                        }
                        ch.op();
                    }
                }
            }
            ch.visit(at.len() as u64);
            ch.seen((kind * 100_000 + n) as u64);
            Ok(())
        }));
    }
    {
        let base: Vec<T> = with_neighbours().into_iter().filter(|x| enc(x).len() < 400).collect();
        spaces.push(space("variations", format!("{} tags x each of their variations (places swapped, rotated, reversed, the same sum, the same exclusive or, one place changed, added or removed, keys or elements exchanged) put in their place and they back, by the setter and as a whole", base.len()), move |ch| {
            let x = ch.pick(&base);
            let how = ch.choose(2);
            let near = neighbours(x);
            for y in &near {
                // Way 1 only adds to dictionaries.
                match (&x.v, &y.v) {
                    (V::Dict(a), V::Dict(b)) if how == 1 && !a.keys().eq(b.keys()) => continue,
                    (V::SDict(a), V::SDict(b)) if how == 1 && !a.keys().eq(b.keys()) => continue,
                    _ => {}
                }
                let mut tag = build(x);
                for (i, (a, b)) in [(x, y), (y, x), (x, x), (x, y)].iter().enumerate() {
                    match put(tag.as_mut(), a, b, how) {
                        Some(want) => observe(tag.as_ref(), &want, &|| format!("{:?} replaced by {:?} in way {}: change {}", x, y, how, i)).map_err(|e| e.chars().take(1500).collect::<String>())?,
                        None => break,
                    }
                    ch.op();
                }
            }
            ch.visit(near.len() as u64);
            ch.seen_bytes(&enc(x));
            Ok(())
        }));
    }
    {
        // A decode that fails may leave a part of the new value, but a value all the same.
        let base: Vec<T> = with_neighbours().into_iter().filter(|x| enc(x).len() < 90 && x.id > 1).collect();
        let per = if th { 1000 } else { 12 };
        spaces.push(space("failed_decodes", format!("{} tags measured, then changed by a decode of each of up to {} values of their kind cut or with one byte changed at every place: whatever is left measures, serializes and compares as itself, also after one more change", base.len(), per), move |ch| {
            let x = ch.pick(&base);
            let f = ILStandardTagFactory::new(ch.flag());
            let same: Vec<&T> = base.iter().filter(|y| y.id == x.id).collect();
            let step = (same.len() + per - 1) / per;
            let mut n = 0;
            for y in same.iter().step_by(step) {
                let b = enc(y);
                let head = ilint(y.id).len();
                for at in head..=b.len() {
                    for how in 0..if at < b.len() { 5 } else { 1 } {
                        let mut c = b.clone();
                        match how {
                            0 => c.truncate(at),
                            1 => c[at] = 0xFF,
                            2 => c[at] = c[at].wrapping_add(1),
                            3 => c[at] = c[at].wrapping_sub(1),
                            _ => c[at] = 0x80,
                        }
                        if heavy(&c, 1 << 16) {
                            continue;
                        }
                        let mut tag = build(x);
                        let what = |z: &str| format!("{:?} then a decode of {}{}", x, hex(&c), z);
                        observe(tag.as_ref(), x, &|| what(" (before it)"))?;
                        let r = f.deserialize_into(&mut ByteArrayReader::new(&c), tag.as_mut());
                        let left = extract(tag.as_ref())?;
                        observe(tag.as_ref(), &left, &|| what(if r.is_ok() { "" } else { ", which fails" }))?;
                        if let Some(want) = put(tag.as_mut(), &left, x, 0) {
                            observe(tag.as_ref(), &want, &|| what(", and the first value again"))?;
                        }
                        n += 1;
                    }
                }
            }
            ch.ops(n);
            ch.visit(n);
            ch.seen_bytes(&enc(x));
            Ok(())
        }));
    }
    Prop { id: "C15", spaces, assumptions: vec![] }
}
