//! C14: dictionaries serialize deterministically by key.
use super::dec::*;
use super::docs::*;
use crate::bridge::*;
use crate::det;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::collections::BTreeMap;
use std::sync::Arc;

const K: [&str; 5] = ["b", "", "\u{e9}", "ab", "a"];

fn val(n: usize) -> T {
    match n {
        0 => t(V::U8(1)),
        1 => t(s("two")),
        _ => dict(&[("z", t(V::Null)), ("y", t(V::U8(3)))]),
    }
}
fn sval(n: usize) -> String {
    ["", "two", "\u{1F600}three"][n].to_string()
}

fn check_dict(d: &ILDictTag, m: &BTreeMap<String, T>, what: &dyn Fn() -> String) -> R {
    let want = t(V::Dict(m.clone()));
    ensure_eq!(extract(d)?, want, "{}", what());
    ensure_eq!(d.len(), m.len(), "len() after {}", what());
    ensure_eq!(d.is_empty(), m.is_empty(), "is_empty() after {}", what());
    for k in K {
        let g = match d.get(k) {
            Some(x) => Some(extract(x)?),
            None => None,
        };
        ensure_eq!(g.as_ref(), m.get(k), "get({:?}) after {}", k, what());
    }
    let b = enc(&want);
    ensure_eq!(d.to_bytes().map_err(|e| format!("{:?}", e))?, b, "bytes after {}", what());
    ensure_eq!(d.size(), b.len() as u64, "size after {}", what());
    Ok(())
}
fn check_sdict(d: &ILStrDictTag, m: &BTreeMap<String, String>, what: &dyn Fn() -> String) -> R {
    let want = t(V::SDict(m.clone()));
    ensure_eq!(extract(d)?, want, "{}", what());
    ensure_eq!(d.len(), m.len(), "len() after {}", what());
    ensure_eq!(d.is_empty(), m.is_empty(), "is_empty() after {}", what());
    for k in K {
        ensure_eq!(d.get(k), m.get(k).map(|x| x.as_str()), "get({:?}) after {}", k, what());
    }
    let b = enc(&want);
    ensure_eq!(d.to_bytes().map_err(|e| format!("{:?}", e))?, b, "bytes after {}", what());
    ensure_eq!(d.size(), b.len() as u64, "size after {}", what());
    Ok(())
}

/// Key sets whose order is easily got wrong.
fn key_sets() -> Vec<Vec<String>> {
    let v = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    vec![
        v(&["", "a", "aa", "aaa", "b", "ba"]),
        v(&["\u{FFFF}", "\u{10000}", "\u{E000}", "\u{10FFFF}", "\u{7FF}", "\u{800}"]),
        v(&["Z", "a", "A", "z", "_", "\u{e9}"]),
        v(&["10", "9", "1", "01", "-1", " "]),
        v(&["\0", "\0\0", "", "a\0", "a", "a\0b"]),
        v(&["key", "key1", "key10", "key2", "Key", "ke"]),
        v(&["e\u{301}", "\u{e9}", "e", "f", "\u{e8}", "E"]),
    ]
}
fn permutation(ch: &Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|_| left.remove(ch.choose(left.len()))).collect()
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = fs();
    let mut spaces = vec![];
    {
        let depth = if th { 5 } else { 4 };
        spaces.push(space("histories", format!("both dictionaries: every history of up to {} of: insert (5 keys x 3 values), remove, clear, retain, change in place, decode", depth), move |ch| {
            let text = ch.flag();
            let fac = ILStandardTagFactory::new(false);
            let mut d = ILDictTag::new();
            let mut m: BTreeMap<String, T> = BTreeMap::new();
            let mut e = ILStrDictTag::new();
            let mut n: BTreeMap<String, String> = BTreeMap::new();
            let mut said: Vec<String> = vec![];
            for _ in 0..depth {
                let op = ch.choose(1 + 15 + 5 + 1 + 1 + 1 + 1);
                if op == 0 {
                    break;
                }
                if op <= 15 {
                    let (k, v) = (K[(op - 1) / 3], (op - 1) % 3);
                    said.push(format!("insert({:?}, {})", k, v));
                    if text {
                        let old = e.insert(k, &sval(v));
                        ensure_eq!(old, n.insert(k.into(), sval(v)), "returned by {}", said.join("; "));
                    } else {
                        let old = match d.insert(k, build(&val(v))) {
                            Some(x) => Some(extract(x.as_ref())?),
                            None => None,
                        };
                        ensure_eq!(old, m.insert(k.into(), val(v)), "returned by {}", said.join("; "));
                    }
                } else if op <= 20 {
                    let k = K[op - 16];
                    said.push(format!("remove({:?})", k));
                    d.mut_value().remove(k);
                    m.remove(k);
                    e.mut_value().remove(k);
                    n.remove(k);
                } else if op == 21 {
                    said.push("clear".into());
                    d.mut_value().clear();
                    m.clear();
                    e.mut_value().clear();
                    n.clear();
                } else if op == 22 {
                    said.push("retain(shorter than 2)".into());
                    d.mut_value().retain(|k, _| k.len() < 2);
                    m.retain(|k, _| k.len() < 2);
                    e.mut_value().retain(|k, _| k.len() < 2);
                    n.retain(|k, _| k.len() < 2);
                } else if op == 23 {
                    said.push("replace \"b\" in place".into());
                    if let Some(x) = d.mut_value().get_mut("b") {
                        *x = build(&val(2));
                        m.insert("b".into(), val(2));
                    }
                    if let Some(x) = e.mut_value().get_mut("b") {
                        x.push('!');
                        n.get_mut("b").unwrap().push('!');
                    }
                } else {
                    said.push("decode {ab, b}".into());
                    m = [("ab".to_string(), val(0)), ("b".to_string(), val(1))].into();
                    n = [("ab".to_string(), sval(1)), ("b".to_string(), sval(2))].into();
                    // In the order of the text, not of the keys.
                    let b = if text { enc(&t(V::SDict(n.clone()))) } else { enc(&t(V::Dict(m.clone()))) };
                    let tag: &mut dyn ILTag = if text { &mut e } else { &mut d };
                    fac.deserialize_into(&mut il2_iltags::io::array::ByteArrayReader::new(&b), tag).map_err(|x| format!("{:?}", x))?;
                }
                ch.op();
                ch.say(|| said.last().unwrap().clone());
            }
            let what = || said.join("; ");
            if text {
                check_sdict(&e, &n, &what)?;
            } else {
                check_dict(&d, &m, &what)?;
            }
            ch.seen_bytes(format!("{:?}{:?}", m, n).as_bytes());
            Ok(())
        }));
    }
    {
        let sets = key_sets();
        let seeds = if th { 24 } else { 8 };
        spaces.push(space("orders", format!("{} key sets: every insertion order of 6 keys x {} hash seeds (fresh thread each), both dictionaries, with and without other keys inserted and removed meanwhile", sets.len(), seeds), move |ch| {
            let ks = ch.pick(&sets);
            let p = permutation(ch, ks.len());
            det::set_seed(1 + ch.choose(seeds) as u64);
            let mut d = ILDictTag::new();
            let mut e = ILStrDictTag::new();
            let mut d2 = ILDictTag::new();
            let mut e2 = ILStrDictTag::new();
            let mut m = BTreeMap::new();
            let mut n = BTreeMap::new();
            for (i, k) in p.iter().enumerate() {
                let k = &ks[*k];
                d.insert(k, build(&val(k.len() % 3)));
                e.insert(k, &sval(k.len() % 3));
                m.insert(k.clone(), val(k.len() % 3));
                n.insert(k.clone(), sval(k.len() % 3));
                d2.insert(&format!("tmp{}", i), build(&val(0)));
                d2.insert(k, build(&val(2)));
                d2.insert(k, build(&val(k.len() % 3)));
                e2.mut_value().reserve(17 * i);
                e2.insert(&format!("tmp{}", i), "x");
                e2.insert(k, "overwritten");
                e2.insert(k, &sval(k.len() % 3));
            }
            for i in 0..p.len() {
                d2.mut_value().remove(&format!("tmp{}", i));
                e2.mut_value().remove(&format!("tmp{}", i));
            }
            e2.mut_value().shrink_to_fit();
            let b = enc(&t(V::Dict(m)));
            let c = enc(&t(V::SDict(n)));
            for x in [&d, &d2] {
                ensure_eq!(x.to_bytes().map_err(|e| format!("{:?}", e))?, b, "dictionary with keys {:?} inserted in order {:?}", ks, p);
                ensure_eq!(x.size(), b.len() as u64, "size");
            }
            for x in [&e, &e2] {
                ensure_eq!(x.to_bytes().map_err(|e| format!("{:?}", e))?, c, "text dictionary with keys {:?} inserted in order {:?}", ks, p);
                ensure_eq!(x.size(), c.len() as u64, "size");
            }
            ensure!(iltag_are_equal(&d, &d2) && iltag_are_equal(&e, &e2), "equal dictionaries compare as different");
            ch.ops(6);
            // What varies: the order in which the map itself lists its keys.
            let order: Vec<&String> = d.value().keys().collect();
            ch.seen_bytes(format!("{:?}", order).as_bytes());
            Ok(())
        }).fresh().stack(1 << 20));
    }
    {
        let seeds = if th { 64 } else { 24 };
        let top = if th { 80 } else { 48 };
        spaces.push(space("seeds", format!("dictionaries of 0..{} and 500 entries x {} hash seeds, plain and nested in each other, decoded again and cloned", top, seeds), move |ch| {
            let n = match ch.choose(top + 2) {
                k if k == top + 1 => 500,
                k => k,
            };
            det::set_seed(100 + ch.choose(seeds) as u64);
            let fac = ILStandardTagFactory::new(true);
            let m: BTreeMap<String, T> = (0..n).map(|i| (format!("{:x}", (i * 7919) % 65521), t(V::Int(i as u64)))).collect();
            let sm: BTreeMap<String, String> = (0..n).map(|i| (format!("{}{:x}", "\u{e9}".repeat(i % 3), i * 31), format!("{}", i))).collect();
            let x = dict(&[("outer", t(V::Dict(m))), ("Other", t(V::SDict(sm))), ("", t(V::Seq(vec![dict(&[("b", t(V::Null)), ("a", t(V::Null))])])))]);
            let b = enc(&x);
            let y = build(&x);
            ensure_eq!(y.to_bytes().map_err(|e| format!("{:?}", e))?, b, "bytes of a dictionary of {} entries", n);
            let z = fac.from_bytes(&b).map_err(|e| format!("{:?}", e))?;
            ensure_eq!(z.to_bytes().map_err(|e| format!("{:?}", e))?, b, "bytes of a decoded dictionary of {} entries", n);
            let c = iltag_clone(z.as_ref()).map_err(|e| format!("{:?}", e))?;
            ensure_eq!(c.to_bytes().map_err(|e| format!("{:?}", e))?, b, "bytes of a cloned dictionary of {} entries", n);
            ensure!(iltag_are_equal(y.as_ref(), c.as_ref()), "a clone is different");
            ch.ops(4);
            let order: Vec<String> = y.as_any().downcast_ref::<ILDictTag>().ok_or("harness: dict")?.get("outer").and_then(|x| x.as_any().downcast_ref::<ILDictTag>()).ok_or("harness: dict")?.value().keys().cloned().collect();
            ch.seen_bytes(format!("{:?}{}", order, n).as_bytes());
            Ok(())
        }).fresh().stack(1 << 20));
    }
    {
        // Keys of up to 3 characters over an alphabet with every UTF-8 width.
        let al = ["a", "b", "\u{e9}", "\u{FFFF}", "\u{10000}"];
        let mut keys: Vec<String> = vec!["".into()];
        let mut last = keys.clone();
        for _ in 0..3 {
            last = last.iter().flat_map(|p| al.iter().map(move |a| format!("{}{}", p, a))).collect();
            keys.extend(last.clone());
        }
        let keys = Arc::new(keys);
        spaces.push(space("key_pairs", format!("every pair among {} keys (up to 3 characters of 1 to 4 bytes), both dictionaries", keys.len()), move |ch| {
            let a = ch.pick(&keys);
            for b in keys.iter() {
                let mut d = ILDictTag::new();
                d.insert(a, build(&val(0)));
                d.insert(b, build(&val(1)));
                let m: BTreeMap<String, T> = [(a.clone(), val(0)), (b.clone(), val(1))].into();
                ensure_eq!(d.to_bytes().map_err(|e| format!("{:?}", e))?, enc(&t(V::Dict(m))), "keys {:?} and {:?}", a, b);
                let mut d = ILStrDictTag::new();
                d.insert(a, "1");
                d.insert(b, "22");
                let m: BTreeMap<String, String> = [(a.clone(), "1".into()), (b.clone(), "22".into())].into();
                ensure_eq!(d.to_bytes().map_err(|e| format!("{:?}", e))?, enc(&t(V::SDict(m))), "keys {:?} and {:?}", a, b);
            }
            ch.ops(2 * keys.len() as u64);
            ch.visit(keys.len() as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let n = if th { 7 } else { 6 };
        spaces.push(space("decoded", format!("every sequence of up to {} encoded entries over 3 keys, in any order and repeated, both dictionaries: each key once with the last value, written back sorted", n), move |ch| {
            let text = ch.flag();
            let count = ch.choose(n + 1);
            let mut v = ilint(count as u64);
            let mut m = BTreeMap::new();
            let mut sm = BTreeMap::new();
            for i in 0..count {
                let k = *ch.pick(&["b", "a", "\u{e9}"]);
                v.extend(enc(&t(s(k))));
                if text {
                    v.extend(enc(&t(V::Str(format!("v{}", i)))));
                    sm.insert(k.to_string(), format!("v{}", i));
                } else {
                    v.extend(enc(&t(V::Int(i as u64 * 100))));
                    m.insert(k.to_string(), t(V::Int(i as u64 * 100)));
                }
            }
            let want = if text { t(V::SDict(sm)) } else { t(V::Dict(m)) };
            let id = if text { 31 } else { 30 };
            let b = frame(id, &v);
            {
                let (x, y) = (b.clone(), want.clone());
                let d = f.strict.from_bytes(&x).map_err(|e| format!("{}: {:?}", hex(&x), e))?;
                ensure_eq!(extract(d.as_ref())?, y, "{}", hex(&x));
                ensure_eq!(d.to_bytes().map_err(|e| format!("{:?}", e))?, enc(&y), "{} written back", hex(&x));
                ensure_eq!(d.size(), enc(&y).len() as u64, "size of {}", hex(&x));
                let mut into = empty_like(&y);
                f.strict.deserialize_into(&mut il2_iltags::io::array::ByteArrayReader::new(&x), into.as_mut()).map_err(|e| format!("{:?}", e))?;
                ensure_eq!(extract(into.as_ref())?, y, "{} into an existing tag", hex(&x));
            }
            // Nested in a sequence with something after it.
            let outer = frame(22, &[&b[..], &[3, 9]].concat());
            let d = f.strict.from_bytes(&outer).map_err(|e| format!("{}: {:?}", hex(&outer), e))?;
            ensure_eq!(d.to_bytes().map_err(|e| format!("{:?}", e))?, enc(&t(V::Seq(vec![want.clone(), t(V::U8(9))]))), "{} written back", hex(&outer));
            ch.ops(3);
            ch.seen_bytes(&enc(&want));
            Ok(())
        }));
    }
    {
        // Many entries, long keys sharing long prefixes.
        let f = f.clone();
        let counts: Vec<usize> = sizes(if th { 40_000 } else { 5000 });
        let lens: Vec<usize> = sizes(if th { 70_000 } else { 9000 });
        spaces.push(space("sizes", format!("{} entry counts up to {} inserted in ascending, descending, interleaved and inside-out order, {} key lengths up to {} with keys that differ only at the end, in the middle or in length; both dictionaries, plain and decoded", counts.len(), counts[counts.len() - 1], lens.len(), lens[lens.len() - 1]), move |ch| {
            let long = ch.flag();
            let n = *ch.pick(if long { &lens } else { &counts });
            let mut keys: Vec<String> = if long {
                let p = "k".repeat(n);
                let q = "\u{e9}".repeat(n / 2);
                let mut v: Vec<String> = ["", "a", "b", "k", "\u{e9}", "\0"].iter().map(|x| format!("{}{}", p, x)).collect();
                v.extend(["", "a", "\u{ff}"].iter().map(|x| format!("{}{}", q, x)));
                v.extend([format!("{}j{}", &p[..n / 2], &p[n / 2..]), format!("{}l{}", &p[..n / 2], &p[n / 2..])]);
                v
            } else {
                (0..n).map(|i| format!("{:x}", i * 7919)).collect()
            };
            keys.sort();
            keys.dedup();
            let k = keys.len();
            let order: Vec<usize> = match ch.choose(4) {
                0 => (0..k).collect(),
                1 => (0..k).rev().collect(),
                2 => (0..k).step_by(2).chain((1..k).step_by(2)).collect(),
                _ => (k / 2..k).chain((0..k / 2).rev()).collect(),
            };
            let mut d = ILDictTag::new();
            let mut e = ILStrDictTag::new();
            let mut m = BTreeMap::new();
            let mut sm = BTreeMap::new();
            for i in &order {
                let (key, x) = (&keys[*i], t(V::Int(*i as u64 * 3)));
                ensure!(d.insert(key, build(&x)).is_none() && e.insert(key, &i.to_string()).is_none(), "a new key replaces another");
                m.insert(key.clone(), x);
                sm.insert(key.clone(), i.to_string());
            }
            for (tag, want) in [(&d as &dyn ILTag, t(V::Dict(m))), (&e as &dyn ILTag, t(V::SDict(sm)))] {
                let b = enc(&want);
                ensure_eq!(tag.to_bytes().map_err(|e| format!("{:?}", e))?, b, "{} keys of size {}", k, n);
                ensure_eq!(tag.size(), b.len() as u64, "size of {} keys of size {}", k, n);
                ensure_eq!(extract(tag)?, want, "{} keys of size {}", k, n);
                let back = f.strict.from_bytes(&b).map_err(|e| format!("{:?}", e))?;
                ensure_eq!(back.to_bytes().map_err(|e| format!("{:?}", e))?, b, "{} keys of size {} decoded", k, n);
                ensure!(iltag_are_equal(tag, back.as_ref()), "{} keys of size {}: decoded is different", k, n);
            }
            for (i, key) in keys.iter().enumerate() {
                ensure!(d.get(key).is_some() && e.get(key) == Some(&i.to_string()[..]), "key {:.40} not found", key);
            }
            ch.ops(8 + k as u64);
            ch.seen((k * 100_000 + n) as u64);
            Ok(())
        }));
    }
    {
        // Keys that look like something with an order of its own.
        let classes: Vec<Vec<&'static str>> = vec![
            vec!["0", "1", "2", "9", "10", "11", "19", "99", "100", "20", "1000000000", "999999999"],
            vec!["00", "01", "001", "1", "0", "10", "010", "09", "9", "0009"],
            vec!["-1", "-2", "-10", "1", "+1", "1.5", "1.25", "-0", "1e3", "1e2", "2e1"],
            vec!["a1", "a2", "a10", "a11", "a02", "a9", "b1", "a1b", "a10b", "a"],
            vec!["1.0", "1.10", "1.2", "1.9.1", "1.10.0", "2", "10.0", "1", "1."],
            vec!["/", "/a", "/a/b", "/a-b", "/a.b", "/ab", "/a/", "a", "/b", "a/b"],
            vec!["a.b", "a", "a-b", "a_b", "a b", "ab", "a:b", "a.b.c", "a..b"],
            vec!["k=1", "k", "k=", "k=10", "k=2", "K=1", "k =1"],
            vec!["ff", "FF", "10", "0xff", "0x10", "0X0F", "f", "A", "a0"],
            vec!["2020-01-02", "2020-1-2", "2019-12-31", "02/01/2020", "2020-01-02T00:00", "2020"],
            vec!["true", "false", "null", "True", "nan", "inf", "NaN", "none"],
            vec!["a", " a", "a ", "\ta", "a\n", "\u{a0}a", "a\u{200b}", "  a"],
            vec!["\u{df}", "ss", "SS", "\u{1e9e}", "\u{131}", "i", "I", "\u{130}", "\u{3c3}", "\u{3c2}"],
            vec!["\u{e9}", "e\u{301}", "e", "\u{e8}", "E", "f", "\u{c9}", "\u{fb01}", "fi", "\u{212b}", "\u{c5}"],
            vec!["one", "two", "three", "four", "five", "six", "seven"],
            vec!["January", "February", "March", "April", "May", "June"],
            vec!["id", "name", "value", "type", "_id", "$id", "@type", "Id"],
            vec!["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"],
        ];
        let most = if th { 5 } else { 4 };
        spaces.push(space("key_classes", format!("{} classes of keys that look alike (numbers, versions, paths, dates, words, cases, accents): every subset of up to {} keys and each whole class, inserted forwards and backwards, both dictionaries, decoded again in any of both orders", classes.len(), most), move |ch| {
            let class = ch.pick(&classes);
            let mut keys: Vec<&str> = vec![];
            let n = ch.choose(most + 1);
            if n == 0 {
                keys.extend(class);
            }
            let mut from = 0;
            for _ in 0..n {
                if from == class.len() {
                    return Ok(());
                }
                let k = from + ch.choose(class.len() - from);
                keys.push(class[k]);
                from = k + 1;
            }
            if ch.flag() {
                keys.reverse();
            }
            let f = ILStandardTagFactory::new(true);
            let (mut d, mut e) = (ILDictTag::new(), ILStrDictTag::new());
            let (mut m, mut o) = (BTreeMap::new(), BTreeMap::new());
            let (mut db, mut eb) = (ilint(keys.len() as u64), ilint(keys.len() as u64));
            for (i, k) in keys.iter().enumerate() {
                let v = t(V::U8(i as u8));
                d.insert(k, build(&v));
                e.insert(k, k);
                db.extend([frame(17, k.as_bytes()), enc(&v)].concat());
                eb.extend([frame(17, k.as_bytes()), frame(17, k.as_bytes())].concat());
                m.insert(k.to_string(), v);
                o.insert(k.to_string(), k.to_string());
            }
            let what = || format!("{:?} inserted", keys);
            check_dict(&d, &m, &what)?;
            check_sdict(&e, &o, &what)?;
            let want = (enc(&t(V::Dict(m))), enc(&t(V::SDict(o))));
            for (b, w) in [(frame(30, &db), &want.0), (frame(31, &eb), &want.1)] {
                let x = f.from_bytes(&b).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
                ensure_eq!(x.to_bytes().map_err(|e| format!("{:?}", e))?, *w, "{} decoded and written back", hex(&b));
            }
            ch.ops(4);
            ch.seen_bytes(&want.1);
            Ok(())
        }));
    }
    Prop {
        id: "C14",
        spaces,
        assumptions: vec!["std's HashMap takes its per-thread keys from getrandom (interposed); the distinct key orders observed are counted as outcomes".to_string()],
    }
}
