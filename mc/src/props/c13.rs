//! C13: decoding into an existing tag equals decoding a fresh one.
use super::dec::*;
use super::docs::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::{LimitedReader, Reader, Writer};
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::sync::Arc;

#[derive(Clone, Debug)]
enum Want {
    /// The value and how many bytes it takes.
    Val(T, usize),
    Fail,
    Other,
}
#[derive(Clone)]
struct Doc {
    b: Vec<u8>,
    want: Want,
}
struct Group {
    id: u64,
    values: Vec<T>,
    valid: Vec<Doc>,
    failing: Vec<Doc>,
    other: Vec<Doc>,
}

/// Several values of each kind, differing in every field and in length both ways.
fn values() -> Vec<Vec<T>> {
    let mut all: Vec<T> = extremes().into_iter().filter(|x| enc(x).len() <= 60).collect();
    let long: Vec<T> = extremes().into_iter().filter(|x| (250..600).contains(&enc(x).len())).collect();
    for x in long {
        if matches!(x.v, V::Bytes(_) | V::Str(_) | V::Raw(_) | V::BigInt(_) | V::BigDec(..)) {
            all.push(x);
        }
    }
    all.extend(docs());
    all.push(dict(&[("a", t(V::U8(1)))]));
    all.push(dict(&[("a", t(s("other"))), ("c", t(V::Seq(vec![t(V::Null)])))]));
    all.push(dict(&[("b", dict(&[("b", t(V::U8(1)))]))]));
    all.push(sdict(&[("a", "1")]));
    all.push(sdict(&[("a", "22"), ("b", "")]));
    all.push(sdict(&[("k", "w")]));
    all.push(t(V::Seq(vec![t(s("one")), t(V::Seq(vec![t(s("two"))]))])));
    all.push(t(V::Arr(vec![t(V::Bytes(vec![1, 2, 3])), t(V::Null), t(V::Null)])));
    all.push(t(s("short")));
    all.push(t(s("a much longer text than before")));
    all.push(t(V::Ints(vec![9, 8, 7, 6, 5])));
    all.push(t(V::Oid(vec![1 << 40])));
    all.push(t(V::Range(5, 6)));
    all.push(t(V::BigDec(7, vec![1, 2, 3, 4, 5])));
    all.push(t(V::Ver([5, 6, 7, 8])));
    let mut groups: Vec<Vec<T>> = vec![];
    for x in all {
        match groups.iter_mut().find(|g| g[0].id == x.id) {
            Some(g) => {
                if !g.contains(&x) {
                    g.push(x)
                }
            }
            None => groups.push(vec![x]),
        }
    }
    groups
}
fn thin<X: Clone>(v: &[X], n: usize) -> Vec<X> {
    if v.len() <= n {
        return v.to_vec();
    }
    (0..n).map(|i| v[i * (v.len() - 1) / (n - 1)].clone()).collect()
}
fn group(vals: &[T], id: Option<u64>, strict: bool) -> Group {
    let std = vals[0].id;
    let id = id.unwrap_or(std);
    let is_raw = matches!(vals[0].v, V::Raw(_));
    let values: Vec<T> = vals.iter().map(|x| T { id, v: x.v.clone() }).collect();
    // A byte sequence that starts with the standard id, as the model sees it.
    let judge = |b: &[u8]| -> Want {
        match dec(b, strict && !is_raw) {
            Ok((x, n)) if x.id == std => Want::Val(x, n),
            Ok(_) => panic!("harness: id"),
            Err(_) => Want::Fail,
        }
    };
    let mut valid = vec![];
    let mut failing = vec![];
    let mut add = |b: Vec<u8>| {
        let want = judge(&b);
        let d = if id == std {
            Doc { b, want }
        } else {
            // The same value under the id of the user.
            let h = ilint(std).len();
            let mut y = ilint(id);
            if id >= 16 && std < 16 {
                if !matches!(want, Want::Val(..)) {
                    return;
                }
                y.extend(ilint((b.len() - h) as u64));
            }
            y.extend(&b[h..]);
            let grow = y.len() as i64 - b.len() as i64;
            let want = match want {
                Want::Val(x, n) => Want::Val(T { id, v: x.v }, (n as i64 + grow) as usize),
                w => w,
            };
            Doc { b: y, want }
        };
        match d.want {
            Want::Val(..) => valid.push(d),
            _ => failing.push(d),
        }
    };
    for x in vals {
        add(enc(x));
    }
    let body = |b: &[u8]| frame(std, b);
    if std == 30 {
        add(body(&[2, 17, 1, b'a', 3, 1, 17, 1, b'a', 3, 2]));
        add(body(&[2, 17, 1, b'a', 3, 1, 17, 1, b'a', 15]));
        add(body(&[1, 17, 1, 0xFF, 3, 1]));
    }
    if std == 31 {
        add(body(&[2, 17, 1, b'a', 17, 1, b'x', 17, 1, b'a', 17, 0]));
        add(body(&[1, 17, 1, b'a', 17, 1, 0xFF]));
    }
    if std == 17 {
        add(body(&[b'a', 0xFF]));
    }
    if std == 1 {
        add(vec![1, 2]);
    }
    for x in thin(vals, 3) {
        let b = enc(&x);
        let h = ilint(std).len();
        for at in thin(&(h..b.len().min(h + 40)).collect::<Vec<_>>(), 8) {
            add(b[..at].to_vec());
        }
        if std >= 16 {
            let v = enc_value(&x.v);
            if v.len() < 200 {
                add(frame(std, &[&v[..], &[0xFF]].concat()));
                if !v.is_empty() {
                    add(frame(std, &v[..v.len() - 1]));
                }
                // Declares more than there is, and more than is allowed.
                add([&ilint(std)[..], &ilint(v.len() as u64 + 1), &v].concat());
                add([&ilint(std)[..], &ilint(MAX + 1), &v].concat());
            }
        }
    }
    let mut other = vec![];
    for x in [t(V::Null), t(V::U8(9)), t(s("other")), t(V::Seq(vec![t(V::U8(1))])), raw(77, &[1]), raw(id.wrapping_add(256).max(40), &[1, 2])] {
        if x.id != id && x.id != std {
            other.push(Doc { b: enc(&x), want: Want::Other });
        }
    }
    other.push(Doc { b: if id == 15 { vec![14, 1] } else { vec![15] }, want: Want::Other });
    Group { id, values, valid, failing, other }
}

/// One decode into `tag`, which currently holds `cur` (None after a failure).
fn step(f: &ILStandardTagFactory, tag: &mut Tag, doc: &Doc, reader: usize, cur: &mut Option<T>, what: &dyn Fn() -> String) -> R {
    let before = extract(tag.as_ref())?;
    if let Some(c) = cur {
        ensure_eq!(before, *c, "value before {}", what());
    }
    let (r, used) = with_reader(reader, &doc.b, |r| f.deserialize_into(r, tag.as_mut()));
    let after = extract(tag.as_ref())?;
    match (&doc.want, r) {
        (Want::Val(x, n), Ok(())) => {
            ensure_eq!(after, *x, "{}", what());
            ensure_eq!(used, *n, "bytes used by {}", what());
            ensure_eq!(tag.to_bytes().map_err(|e| format!("{:?}", e))?, enc(x), "serialized after {}", what());
            ensure_eq!(tag.size(), enc(x).len() as u64, "size after {}", what());
            *cur = Some(x.clone());
        }
        (Want::Val(..), Err(e)) => return Err(format!("{}: {:?}", what(), e)),
        (Want::Fail, Err(_)) => {
            ensure_eq!(after.id, before.id, "identifier after {}", what());
            *cur = None;
        }
        (Want::Fail, Ok(())) => return Err(format!("{} is accepted as {:?}", what(), after)),
        (Want::Other, Err(e)) => {
            ensure_eq!(class(&e), EC::Unexpected, "{}", what());
            ensure_eq!(after, before, "value after {}", what());
        }
        (Want::Other, Ok(())) => return Err(format!("{} is accepted as {:?}", what(), after)),
    }
    Ok(())
}

/// A tag of no known type with the bytes of one.
struct Looks {
    id: u64,
    v: Vec<u8>,
}
impl ILTag for Looks {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.v.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        w.write_all(&self.v)?;
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> il2_iltags::tags::Result<()> {
        // Takes what a number takes, too.
        self.v = vec![0; n];
        r.read_all(&mut self.v)?;
        Ok(())
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
/// Builds `x` with lookalikes in place of the element number `at` (or all elements that
/// hold no other), counted in depth.
fn looking(x: &T, at: Option<usize>, differ: bool, n: &mut usize) -> Tag {
    fn one(y: &T, at: Option<usize>, differ: bool, n: &mut usize) -> Tag {
        let mine = *n;
        *n += 1;
        let leaf = !matches!(y.v, V::Arr(_) | V::Seq(_) | V::Dict(_));
        if at == Some(mine) || (at.is_none() && leaf) {
            let mut v = enc_value(&y.v);
            if differ {
                if let Some(l) = v.last_mut() {
                    *l ^= 1;
                }
            }
            *n += count(y) - 1;
            return Box::new(Looks { id: y.id, v });
        }
        if leaf {
            return build(y);
        }
        looking(y, at, differ, n)
    }
    match &x.v {
        V::Arr(a) => {
            let mut g = ILTagArrayTag::with_id(x.id);
            *g.mut_value() = a.iter().map(|y| one(y, at, differ, n)).collect();
            Box::new(g)
        }
        V::Seq(a) => {
            let mut g = ILTagSeqTag::with_id(x.id);
            *g.mut_value() = a.iter().map(|y| one(y, at, differ, n)).collect();
            Box::new(g)
        }
        V::Dict(m) => {
            let mut g = ILDictTag::with_id(x.id);
            for (k, y) in m {
                g.insert(k, one(y, at, differ, n));
            }
            Box::new(g)
        }
        _ => build(x),
    }
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = fs();
    let mut spaces = vec![];
    spaces.push(super::huge::into(tier));
    let vals = values();
    let mut groups: Vec<Group> = vals.iter().map(|g| group(g, None, false)).collect();
    let n_std = groups.len();
    for g in &vals {
        if matches!(g[0].v, V::Bytes(_) | V::BigInt(_)) {
            continue;
        }
        groups.push(group(g, Some(50), false));
        groups.push(group(g, Some(70000), false));
    }
    let groups = Arc::new(groups);
    {
        let (f, groups) = (f.clone(), groups.clone());
        spaces.push(space("pairs", format!("{} kinds and identifiers: every initial value x every document (value, failing, other identifier) x every second document x 3 readers", groups.len()), move |ch| {
            let g = ch.pick(&groups);
            let x = ch.pick(&g.values);
            let all: Vec<&Doc> = g.valid.iter().chain(&g.failing).chain(&g.other).collect();
            let d1 = *ch.pick(&all);
            let reader = *ch.pick(&[0usize, 2, 3]);
            // Documents of a custom id meet an engine without creator for it:
            // the tag itself decodes.
            for d2 in &all {
                let mut tag = build(x);
                let mut cur = Some(x.clone());
                step(&f.lax, &mut tag, d1, reader, &mut cur, &|| format!("decoding {} into {:?}", hex(&d1.b), x))?;
                step(&f.lax, &mut tag, d2, 0, &mut cur, &|| format!("decoding {} then {} into {:?}", hex(&d1.b), hex(&d2.b), x))?;
            }
            ch.ops(2 * all.len() as u64);
            ch.visit(all.len() as u64 - 1);
            ch.say(|| format!("id {} first {}", g.id, hex(&d1.b)));
            ch.seen_bytes(&d1.b);
            Ok(())
        }));
    }
    {
        let (f, groups) = (f.clone(), groups.clone());
        let depth = if th { 5 } else { 4 };
        let (nv, nf) = if th { (6, 6) } else { (5, 5) };
        spaces.push(space("histories", format!("every history of {} decodes over {} values, {} failing documents and 2 documents of another identifier, per kind", depth, nv, nf), move |ch| {
            let g = &groups[ch.choose(n_std)];
            let mut all: Vec<Doc> = thin(&g.valid, nv);
            all.extend(thin(&g.failing, nf));
            all.extend(thin(&g.other, 2));
            let x = g.values.last().unwrap();
            let mut tag = build(x);
            let mut cur = Some(x.clone());
            let mut hist: Vec<String> = vec![];
            for _ in 0..depth {
                let d = ch.pick(&all);
                hist.push(hex(&d.b));
                ch.say(|| hex(&d.b));
                step(&f.lax, &mut tag, d, 0, &mut cur, &|| format!("decoding {} into {:?}", hist.join(" then "), x))?;
                ch.op();
                if let Some(c) = &cur {
                    ch.seen_bytes(&enc(c));
                }
            }
            Ok(())
        }));
    }
    {
        // One tag decoded into more often than any 16-bit count.
        let f = f.clone();
        let gs: Vec<(T, Vec<Doc>)> = groups[..n_std]
            .iter()
            .map(|g| {
                let mut d = thin(&g.valid, if th { 4 } else { 3 });
                d.extend(thin(&g.failing, 2).into_iter().filter(|d| matches!(d.want, Want::Fail)));
                d.extend(g.other.first().cloned());
                d.retain(|d| d.b.len() < 300);
                (g.values[0].clone(), d)
            })
            .collect();
        spaces.push(space("repeated", format!("{} kinds: every pair of up to 6 documents decoded in turn into one tag, 66000 times", gs.len()), move |ch| {
            let (x, ds) = ch.pick(&gs);
            let pair = [ch.pick(ds), ch.pick(ds)];
            let mut tag = build(x);
            let mut cur = x.clone();
            for i in 0..66_000usize {
                let d = pair[i % 2];
                let mut r = ByteArrayReader::new(&d.b);
                let ok = f.lax.deserialize_into(&mut r, tag.as_mut()).is_ok();
                let full = i < 4 || i % 64 == 0 || i > 65_500;
                match &d.want {
                    Want::Val(y, n) => {
                        ensure!(ok && r.offset() == *n, "decode {} of {} into {:?}: {}, {} bytes used", i, hex(&d.b), x, ok, r.offset());
                        if full {
                            ensure_eq!(extract(tag.as_ref())?, *y, "decode {} of {}, {} alternating", i, hex(&pair[0].b), hex(&pair[1].b));
                        }
                        cur = y.clone();
                    }
                    Want::Fail => {
                        ensure!(!ok, "decode {} of {} into {:?} succeeds", i, hex(&d.b), x);
                        cur = extract(tag.as_ref())?;
                    }
                    Want::Other => {
                        ensure!(!ok, "decode {} of {} into {:?} succeeds", i, hex(&d.b), x);
                        if full {
                            ensure_eq!(extract(tag.as_ref())?, cur, "decode {} of {}, {} alternating", i, hex(&pair[0].b), hex(&pair[1].b));
                        }
                    }
                }
            }
            ch.ops(66_000);
            ch.seen_bytes(&pair[0].b);
            Ok(())
        }));
    }
    {
        // Containers filled by the user with tags that only look like those decoded.
        let base: Vec<T> = with_neighbours().into_iter().filter(|x| enc(x).len() < 120 && matches!(x.v, V::Arr(_) | V::Seq(_) | V::Dict(_))).collect();
        spaces.push(space("lookalikes", format!("{} containers decoded into one that holds tags of other types with the very same bytes (or all but one), in place of some or all of its elements at every level", base.len()), move |ch| {
            let x = ch.pick(&base);
            let all = ch.flag();
            let f = ILStandardTagFactory::new(ch.flag());
            let b = enc(x);
            if dec(&b, true).is_err() && f.deserialize(&mut ByteArrayReader::new(&b)).is_err() {
                return Ok(());
            }
            let places = count(x);
            for at in 0..if all { 1 } else { places } {
                for differ in [false, true] {
                    let mut tag = looking(x, if all { None } else { Some(at) }, differ, &mut 0);
                    for again in 0..2 {
                        f.deserialize_into(&mut ByteArrayReader::new(&b), tag.as_mut()).map_err(|e| format!("{:?}: {:?}", x, e))?;
                        let got = extract(tag.as_ref()).map_err(|e| format!("{:?} decoded into its lookalike (place {}, {}, time {}): {}", x, at, differ, again, e))?;
                        ensure_eq!(got, *x, "decoded into its lookalike (place {}, {}, time {})", at, differ, again);
                        ch.op();
                    }
                }
            }
            ch.visit(places as u64);
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        // Mutations between decodes: the fields set by the user are replaced too.
        let (f, groups) = (f.clone(), groups.clone());
        spaces.push(space("value_only", "every kind, initial value and value: deserialize_value on a source of exactly the value, on one with more behind a limit, then the factory", move |ch| {
            let g = &groups[ch.choose(n_std)];
            let x = ch.pick(&g.values);
            for y in &g.values {
                let v = enc_value(&y.v);
                let mut more = v.clone();
                more.extend([0xAA; 20]);
                let mut tag = build(x);
                let mut r = ByteArrayReader::new(&v);
                tag.deserialize_value(&f.lax, v.len(), &mut r).map_err(|e| format!("{:?} into {:?}: {:?}", y, x, e))?;
                ensure_eq!(extract(tag.as_ref())?, *y, "value decoded into {:?}", x);
                ensure_eq!(r.offset(), v.len(), "bytes used decoding {:?}", y);
                let mut tag = build(x);
                let mut r = ByteArrayReader::new(&more);
                tag.deserialize_value(&f.lax, v.len(), &mut LimitedReader::new(&mut r, v.len())).map_err(|e| format!("{:?} into {:?}: {:?}", y, x, e))?;
                ensure_eq!(extract(tag.as_ref())?, *y, "value decoded into {:?}", x);
                ensure_eq!(r.offset(), v.len(), "bytes used decoding {:?}", y);
                f.lax.deserialize_into(&mut ByteArrayReader::new(&enc(x)), tag.as_mut()).map_err(|e| format!("{:?}", e))?;
                ensure_eq!(extract(tag.as_ref())?, *x, "{:?} decoded into {:?}", x, y);
                ch.ops(3);
            }
            ch.visit(g.values.len() as u64 - 1);
            Ok(())
        }));
    }
    {
        let (f, groups) = (f.clone(), groups.clone());
        let mut ids = crate::alpha::id_aliases();
        ids.extend(crate::alpha::u64_edges().into_iter().filter(|x| *x > 31));
        ids.extend(0..80);
        ids.sort();
        ids.dedup();
        spaces.push(space("other_ids", format!("every kind and identifier of tag offered a document of each of {} identifiers, each sharing its low bits with a standard one: refused and left alone unless it is its own", ids.len()), move |ch| {
            let g = ch.pick(&groups);
            let x = g.values.last().unwrap();
            let body = enc_value(&x.v);
            let n = ids.len() as u64;
            for id in &ids {
                if *id == g.id {
                    continue;
                }
                // The very value of the tag under another identifier, with a length.
                let mut b = ilint(*id);
                if *id >= 16 {
                    b.extend(ilint(body.len() as u64));
                }
                b.extend(&body);
                b.extend([0; 16]);
                let mut tag = build(x);
                let mut r = ByteArrayReader::new(&b);
                let o = f.lax.deserialize_into(&mut r, tag.as_mut());
                match o {
                    Err(e) => ensure_eq!(class(&e), EC::Unexpected, "a document of {} into a tag of {}", id, g.id),
                    Ok(()) => return Err(format!("a document of {} is accepted by a tag of {}: {}", id, g.id, hex(&b))),
                }
                ensure_eq!(extract(tag.as_ref())?, *x, "value of {} after a document of {}", g.id, id);
            }
            ch.visit(n - 1);
            ch.ops(n);
            ch.seen(g.id);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let z = sizes(if th { 70_000 } else { 5000 });
        spaces.push(space("sizes", format!("{} kinds of variable length: {} initial sizes x as many decoded sizes, up to {}, every byte different, from memory and from a user reader; then a failing decode and a good one again", N_SIZED, z.len(), z[z.len() - 1]), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 7 && n > 5000 {
                return Ok(());
            }
            let x = sized_alt(kind, n, 1);
            for m in &z {
                if kind >= 7 && (*m > 5000 || n + *m > 1100) {
                    continue;
                }
                let y = sized(kind, *m);
                let b = enc(&y);
                let mut tag = build(&x);
                let mut cur = Some(x.clone());
                let doc = Doc { want: Want::Val(y.clone(), b.len()), b };
                step(&f.lax, &mut tag, &doc, if m % 2 == 0 { 0 } else { 2 }, &mut cur, &|| format!("kind {} of size {} decoded into size {}", kind, m, n))?;
                if *m > 0 {
                    let cut = Doc { b: doc.b[..doc.b.len() - 1 - m / 2].to_vec(), want: Want::Fail };
                    step(&f.lax, &mut tag, &cut, 0, &mut cur, &|| format!("kind {} of size {} truncated, decoded into size {}", kind, m, n))?;
                    step(&f.lax, &mut tag, &doc, 0, &mut cur, &|| format!("kind {} of size {} decoded into size {} after a failure", kind, m, n))?;
                }
            }
            ch.visit(3 * z.len() as u64 - 1);
            ch.ops(3 * z.len() as u64);
            ch.seen((kind * 1000 + n) as u64);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let base = with_neighbours();
        spaces.push(space("near", format!("{} tags: decoded into one holding each of its variations (places swapped, rotated, reversed, the same sum, the same exclusive or, one place changed, added or removed, keys or elements exchanged), and the other way", base.len()), move |ch| {
            let x = ch.pick(&base);
            let dx = Doc { b: enc(x), want: Want::Val(x.clone(), enc(x).len()) };
            let near = neighbours(x);
            for y in &near {
                let b = enc(y);
                let dy = Doc { want: Want::Val(y.clone(), b.len()), b };
                let mut tag = build(x);
                let mut cur = Some(x.clone());
                for d in [&dy, &dx, &dx, &dy] {
                    step(&f.lax, &mut tag, d, 0, &mut cur, &|| format!("{:?} and {:?} decoded in turn into one tag", x, y))?;
                }
            }
            ch.visit(4 * near.len() as u64);
            ch.ops(4 * near.len() as u64);
            ch.seen_bytes(&dx.b);
            Ok(())
        }));
    }
    {
        // Trees: any tree into any other tree of the same kind.
        let f = f.clone();
        let leaves = vec![t(V::Null), t(s("\u{e9}")), raw(50, &[1])];
        let n = if th { 5 } else { 4 };
        spaces.push(space("trees", format!("every tree of at most {} tags decoded into every tree of at most 3 tags, both modes; same outermost kind: equal to fresh, otherwise refused", n), move |ch| {
            let mut k = 3;
            let x = tree(ch, &mut k, 3, &leaves);
            let mut k = n;
            let y = tree(ch, &mut k, n, &leaves);
            let b = enc(&y);
            for (fac, strict) in [(&f.lax, false), (&f.strict, true)] {
                let mut tag = build(&x);
                let r = fac.deserialize_into(&mut ByteArrayReader::new(&b), tag.as_mut());
                let fresh = fac.from_bytes(&b).is_ok() || matches!(y.v, V::Raw(_));
                if x.id != y.id {
                    match r {
                        Err(e) => ensure_eq!(class(&e), EC::Unexpected, "{:?} into {:?}", y, x),
                        Ok(()) => return Err(format!("{:?} is accepted into {:?}", y, x)),
                    }
                    ensure_eq!(extract(tag.as_ref())?, x, "after refusing {:?}", y);
                } else {
                    ensure_eq!(r.is_ok(), fresh, "{:?} into {:?} (strict {}) succeeds", y, x, strict);
                    if fresh {
                        ensure_eq!(extract(tag.as_ref())?, y, "decoded into {:?}", x);
                        ensure!(tag.to_bytes().ok().as_deref() == Some(&b[..]), "{:?} into {:?} serializes differently", y, x);
                    }
                }
                ch.ops(1);
            }
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    Prop { id: "C13", spaces, assumptions: vec![] }
}
