//! The document set: tags of every type, and the spaces of tag trees shared by
//! several properties.
use crate::alpha::*;
use crate::engine::*;
use crate::model::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn s(x: &str) -> V {
    V::Str(x.to_string())
}
pub fn dict(e: &[(&str, T)]) -> T {
    t(V::Dict(e.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()))
}
pub fn sdict(e: &[(&str, &str)]) -> T {
    t(V::SDict(e.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()))
}

/// One value per kind of tag (and raw tags with ids of three widths).
pub fn kinds() -> Vec<T> {
    vec![
        t(V::Null),
        t(V::Bool(true)),
        t(V::I8(-2)),
        t(V::U8(0xF8)),
        t(V::I16(-2)),
        t(V::U16(0x0102)),
        t(V::I32(-3)),
        t(V::U32(0x01020304)),
        t(V::I64(-4)),
        t(V::U64(0x0102030405060708)),
        t(V::Int(0x1F8)),
        t(V::F32(0x7FA00001)),
        t(V::F64(0xFFF4000000000001)),
        t(V::F128([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16])),
        t(V::SInt(-300)),
        t(V::Bytes(vec![1, 2, 0xFF])),
        t(s("h\u{e9}\0\u{1F600}")),
        t(V::BigInt(vec![0x80, 0])),
        t(V::BigDec(-2, vec![7, 8])),
        t(V::Ints(vec![1, 0xF8, 0x100F8])),
        t(V::Arr(vec![t(V::U8(1)), t(s("x"))])),
        t(V::Seq(vec![t(V::Bool(false)), t(V::Bytes(vec![9]))])),
        t(V::Range(0x1F8, 0x0203)),
        t(V::Ver([1, -2, 3, i32::MIN])),
        t(V::Oid(vec![2, 5, 0x1F8])),
        dict(&[("b", t(V::U8(2))), ("", t(V::Null)), ("\u{e9}", t(s("v")))]),
        sdict(&[("k", "v"), ("", ""), ("\u{1F600}", "\u{e9}")]),
        raw(32, &[1, 2, 3]),
        raw(26, &[]),
        raw(0x1F8, &[0x10]),
        raw(u64::MAX, &[5, 6]),
    ]
}

/// A value of every type at its extremes.
pub fn extremes() -> Vec<T> {
    let mut v = vec![t(V::Null), t(V::Bool(false)), t(V::Bool(true))];
    for x in [i8::MIN, -1, 0, 1, i8::MAX] {
        v.push(t(V::I8(x)));
    }
    for x in [0, 1, 0x7F, 0x80, 0xF8, 0xFF] {
        v.push(t(V::U8(x)));
    }
    for x in [i16::MIN, -1, 0, 0x0102, i16::MAX] {
        v.push(t(V::I16(x)));
    }
    for x in [0, 0x0102, 0x8000, 0xFFFF] {
        v.push(t(V::U16(x)));
    }
    for x in [i32::MIN, -1, 0, 0x01020304, i32::MAX] {
        v.push(t(V::I32(x)));
    }
    for x in [0, 0x01020304, 0x80000000, u32::MAX] {
        v.push(t(V::U32(x)));
    }
    for x in [i64::MIN, -1, 0, 0x0102030405060708, i64::MAX] {
        v.push(t(V::I64(x)));
        v.push(t(V::SInt(x)));
    }
    for x in [0, 0x0102030405060708, 1 << 63, u64::MAX] {
        v.push(t(V::U64(x)));
    }
    for x in u64_few() {
        v.push(t(V::Int(x)));
        v.push(t(V::SInt(unzigzag(x))));
        v.push(t(V::Range(x, (x % 65536) as u16)));
        v.push(t(V::Ints(vec![x])));
        v.push(t(V::Oid(vec![x, 1])));
    }
    for x in [0, 0x80000000, 0x3F800000, 0x7F800000, 0x7FC00000, 0x7F800001, 0xFFFFFFFF, 1] {
        v.push(t(V::F32(x)));
    }
    for x in [0, 1 << 63, 0x3FF0000000000000, 0x7FF0000000000000, 0x7FF8000000000000, 0x7FF0000000000001, u64::MAX, 1] {
        v.push(t(V::F64(x)));
    }
    v.push(t(V::F128([0; 16])));
    v.push(t(V::F128([0xFF; 16])));
    for n in [0usize, 1, 247, 248, 249, 503, 504] {
        v.push(t(V::Bytes(fill(n, 1))));
        v.push(t(V::BigInt(fill(n, 2))));
        v.push(t(V::Str("x".repeat(n))));
        v.push(t(V::BigDec(-1, fill(n, 3))));
        v.push(raw(32, &fill(n, 4)));
        v.push(t(V::Ints(vec![0xF8; n])));
        v.push(t(V::Arr(vec![t(V::Null); n])));
        v.push(t(V::Seq(vec![t(V::Null); n])));
    }
    v.push(t(V::Str("\u{0}\u{7F}\u{80}\u{7FF}\u{800}\u{FFFF}\u{10000}\u{10FFFF}\u{FEFF}\r\n ".into())));
    for a in [[0; 4], [i32::MIN; 4], [i32::MAX, -1, 0, 1]] {
        v.push(t(V::Ver(a)));
    }
    v.push(dict(&[]));
    v.push(sdict(&[]));
    v.push(t(V::Seq(vec![])));
    v.push(t(V::Arr(vec![])));
    v.extend(kinds());
    v
}

/// Documents for mutation, fault and chunking spaces: small, together covering
/// every type, nesting, multi-byte ids, multi-byte lengths and counts.
pub fn docs() -> Vec<T> {
    let mut v = kinds();
    v.push(t(V::Seq(vec![])));
    v.push(t(V::Arr(vec![])));
    v.push(dict(&[]));
    v.push(sdict(&[]));
    v.push(t(V::Ints(vec![])));
    v.push(t(V::Int(7)));
    v.push(t(V::Int(u64::MAX)));
    v.push(t(V::SInt(3)));
    v.push(t(V::Seq(vec![t(V::Int(5)), t(V::Int(0x1F8)), t(V::SInt(-1))])));
    v.push(t(V::Arr(vec![t(V::Int(5)), t(V::Arr(vec![])), t(V::Seq(vec![t(V::Null)]))])));
    v.push(t(V::Seq(vec![t(V::Arr(vec![dict(&[("k", t(V::Seq(vec![t(s("deep"))])))])])), t(V::U8(1))])));
    v.push(dict(&[("a", t(V::Arr(vec![t(V::U8(1))]))), ("b", sdict(&[("x", "y")]))]));
    v.push(t(V::Arr(vec![raw(40, &[1]), raw(0x1F8, &[2, 3]), t(V::Bytes(vec![]))])));
    v.push(t(V::Seq(vec![t(V::Range(1, 2)), t(V::Ver([0; 4])), t(V::BigDec(1, vec![])), t(V::F128([3; 16]))])));
    v
}
/// Containers and values under identifiers of the user (see `own_kind`).
pub fn own_docs() -> Vec<T> {
    let mut v: Vec<T> = kinds().iter().filter(|x| own_id(std_kind(x), 0).is_some()).map(|x| owned(x, 0)).collect();
    let mixed = t(V::Seq(vec![t(V::Arr(vec![dict(&[("k", t(V::Seq(vec![t(s("deep")), t(V::U8(1))]))), ("l", t(V::Int(300)))])])), t(V::SInt(-5))]));
    let flat = t(V::Arr(vec![t(V::Null), t(V::Bool(true)), t(V::Range(1, 2)), sdict(&[("x", "y")])]));
    for b in 0..4 {
        v.push(owned(&mixed, b));
        v.push(owned(&flat, b));
    }
    v
}
fn std_kind(x: &T) -> u64 {
    match x.v {
        V::Raw(_) => u64::MAX,
        _ => std_id(&x.v),
    }
}
/// Documents with multi-byte lengths.
pub fn big_docs() -> Vec<T> {
    vec![
        t(V::Bytes(fill(248, 9))),
        t(V::Str("\u{e9}".repeat(124))),
        t(V::Seq(vec![t(V::Bytes(fill(250, 9))), t(V::U8(1))])),
        t(V::Arr(vec![t(V::U8(7)); 250])),
        t(V::Ints((0..249).collect())),
        dict(&[("k", t(V::Str("z".repeat(300))))]),
        raw(99, &fill(600, 5)),
    ]
}
pub fn no_raw(x: &T) -> bool {
    match &x.v {
        V::Raw(_) => false,
        V::Arr(a) | V::Seq(a) => a.iter().all(no_raw),
        V::Dict(m) => m.values().all(no_raw),
        _ => true,
    }
}

/// Documents that grow with one number: every variable-length field and every count.
pub const N_SIZED: usize = 13;
pub fn sized(kind: usize, n: usize) -> T {
    sized_alt(kind, n, 0)
}
/// The same with other contents at every place where `alt` is not 0.
pub fn sized_alt(kind: usize, n: usize, alt: usize) -> T {
    let w = u64_widths();
    let a = alt as u8;
    let k = ["k", "q", "z"][alt % 3];
    match kind {
        0 => t(V::Bytes(fill(n, 1 + alt as u64))),
        1 => t(V::Str(fill(n, 2 + alt as u64).iter().map(|b| (b & 0x7F) as char).collect())),
        2 => t(V::BigInt(fill(n, 3 + alt as u64))),
        3 => t(V::BigDec(-(n as i32), fill(n, 4 + alt as u64))),
        4 => raw(33, &fill(n, 5 + alt as u64)),
        5 => dict(&[(&k.repeat(n), t(V::U8(1 + a))), ("a", t(V::Bytes(fill(n / 2, 6 + alt as u64))))]),
        6 => sdict(&[(&"\u{e9}".repeat(n / 2), &k.repeat(n)), ("a", "b")]),
        7 => t(V::Ints((0..n).map(|i| w[(i + alt) % w.len()]).collect())),
        8 => t(V::Oid((0..n).map(|i| (i + alt) as u64 * 7).collect())),
        9 => t(V::Arr((0..n).map(|i| if i % 3 == 0 { t(V::U8((i as u8).wrapping_add(a))) } else { t(V::Null) }).collect())),
        10 => t(V::Seq((0..n).map(|i| if i % 3 == 0 { t(V::U16((i + alt) as u16)) } else { raw(40, &[(i as u8).wrapping_add(a)]) }).collect())),
        11 => t(V::Dict((0..n).map(|i| (format!("{}{:x}", if alt == 0 { "" } else { k }, i * 7919), t(V::U32((i + alt) as u32)))).collect())),
        _ => t(V::SDict((0..n).map(|i| (format!("{}{:x}", if alt == 0 { "" } else { k }, i * 7919), k.repeat(i % 3))).collect())),
    }
}
/// Chooses a dictionary value with repeated keys: a kind (30 or 31), then up to four
/// entries over three keys and values of several lengths and kinds.
pub fn repeated(ch: &Ch) -> (u64, Vec<u8>) {
    let text = |x: &str| enc(&t(s(x)));
    let keys = [text("a"), text("b"), text("")];
    let which = ch.flag();
    let vals: Vec<Vec<u8>> = if which {
        ["", "x", "y", "xy", "yx", "\u{e9}", "aaaaaaaaaaaa", &"q".repeat(260)].iter().map(|x| text(x)).collect()
    } else {
        let v = [t(V::Null), t(V::U8(1)), t(V::U8(2)), t(V::U64(3)), t(s("text")), t(V::Arr(vec![t(V::Null)])), dict(&[("a", t(V::I8(1)))]), raw(40, &fill(260, 1))];
        v.iter().map(enc).collect()
    };
    let n = 2 + ch.choose(3);
    let mut b = vec![n as u8];
    for i in 0..n {
        b.extend(&keys[ch.choose(if n < 4 { 3 } else { 2 })]);
        b.extend(&vals[if n < 4 || i == 0 { ch.choose(vals.len()) } else { 3 * ch.choose(3) }]);
    }
    (if which { 31 } else { 30 }, b)
}
pub const REPEATED: &str = "both dictionaries with every sequence of 2 to 4 entries over 3 keys and 8 values (4 entries: 2 keys, 3 values), so with every pattern of repeated keys: the last one holds";
/// What variations are made of.
pub fn with_neighbours() -> Vec<T> {
    let mut base: Vec<T> = docs().into_iter().chain(extremes()).filter(|x| enc(x).len() < 700).collect();
    for kind in 0..N_SIZED {
        for n in [2usize, 3, 5, 8, 9, 16, 17, 33, 70, 300] {
            base.push(sized(kind, n));
        }
    }
    base.extend(["listen", "silent", "0011", "1010", "ab\u{e9}\u{e8}", "aaaaaaaa", "a quick brown fox jumps over the dog"].map(|x| t(s(x))));
    base.extend([t(V::Ints(vec![1, 2, 3, 4])), t(V::Oid(vec![1, 2, 840, 113549])), t(V::Arr(vec![t(V::U8(1)), t(V::U8(2)), t(s("ab"))])), sdict(&[("a", "xy"), ("b", "yx"), ("ba", "")]), dict(&[("a", t(V::U8(1))), ("b", t(V::U8(2)))])]);
    base.sort();
    base.dedup();
    base
}
/// Variations of a value that keep something of it: its length, its sum or set of
/// bytes, its beginning and end, or all but one place.
pub fn neighbours(x: &T) -> Vec<T> {
    fn perms<E: Clone>(a: &[E]) -> Vec<Vec<E>> {
        let n = a.len();
        let mut out = vec![];
        if n < 2 {
            return out;
        }
        for (i, j) in [(0, 1), (0, n - 1), (n - 2, n - 1), (n / 2, n - 1), (0, n / 2), (n / 3, n / 2)] {
            let mut b = a.to_vec();
            b.swap(i, j);
            out.push(b);
        }
        let mut b = a.to_vec();
        b.rotate_left(1);
        out.push(b.clone());
        b.rotate_left(n / 2);
        out.push(b);
        out.push(a.iter().rev().cloned().collect());
        for i in [0, n / 2, n - 1] {
            for j in [0, n / 2, n - 1] {
                let mut b = a.to_vec();
                b[i] = a[j].clone();
                out.push(b);
            }
        }
        out
    }
    fn bytes(a: &[u8]) -> Vec<Vec<u8>> {
        let n = a.len();
        let mut out = perms(a);
        for i in [0, 1, 2, 3, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)] {
            if i >= n {
                continue;
            }
            for m in [1u8, 0x20, 0x80] {
                let mut b = a.to_vec();
                b[i] ^= m;
                out.push(b);
            }
            let mut b = a.to_vec();
            b.remove(i);
            out.push(b);
            for j in [0, n / 2, n - 1] {
                // The same sum.
                let mut b = a.to_vec();
                if i != j {
                    b[i] = b[i].wrapping_add(1);
                    b[j] = b[j].wrapping_sub(1);
                    out.push(b.clone());
                    // The same sum and difference.
                    let k = (j + 1) % n;
                    if k != i {
                        b[j] = a[j].wrapping_sub(2);
                        b[k] = b[k].wrapping_add(1);
                        out.push(b);
                    }
                    // The same exclusive or.
                    let mut b = a.to_vec();
                    b[i] ^= 1;
                    b[j] ^= 1;
                    out.push(b);
                }
            }
        }
        let mut b = a.to_vec();
        b.push(0);
        out.push(b);
        out
    }
    let texts = |a: &str| -> Vec<String> { bytes(a.as_bytes()).into_iter().filter_map(|b| String::from_utf8(b).ok()).collect() };
    fn nums(a: &[u64]) -> Vec<Vec<u64>> {
        let mut out = perms(a);
        let n = a.len();
        for i in [0, n / 2, n.saturating_sub(1)] {
            if i < n {
                for d in [1u64, 248, 1 << 32] {
                    let mut b = a.to_vec();
                    b[i] ^= d;
                    out.push(b.clone());
                    b[(i + 1) % n] ^= d;
                    out.push(b);
                }
                let mut b = a.to_vec();
                b.remove(i);
                out.push(b);
            }
        }
        out
    }
    let v: Vec<V> = match &x.v {
        V::Bytes(b) => bytes(b).into_iter().map(V::Bytes).collect(),
        V::BigInt(b) => bytes(b).into_iter().map(V::BigInt).collect(),
        V::Raw(b) => bytes(b).into_iter().map(V::Raw).collect(),
        V::BigDec(k, b) => bytes(b).into_iter().map(|b| V::BigDec(*k, b)).chain([V::BigDec(k ^ 1, b.clone()), V::BigDec(k.wrapping_neg(), b.clone())]).collect(),
        V::Str(s) => texts(s).into_iter().map(V::Str).collect(),
        V::Ints(a) => nums(a).into_iter().map(V::Ints).collect(),
        V::Oid(a) => nums(a).into_iter().map(V::Oid).collect(),
        V::Arr(a) | V::Seq(a) => {
            let mut out = perms(a);
            for i in [0, a.len() / 2, a.len().saturating_sub(1)] {
                if i < a.len() {
                    for y in neighbours(&a[i]) {
                        let mut b = a.clone();
                        b[i] = y;
                        out.push(b);
                    }
                    let mut b = a.clone();
                    b.remove(i);
                    out.push(b);
                }
            }
            out.into_iter().map(|a| if matches!(x.v, V::Arr(_)) { V::Arr(a) } else { V::Seq(a) }).collect()
        }
        V::Dict(m) => {
            let k: Vec<String> = m.keys().cloned().collect();
            let e: Vec<T> = m.values().cloned().collect();
            let mut out: Vec<V> = perms(&e).into_iter().map(|e| V::Dict(k.iter().cloned().zip(e).collect())).collect();
            for (p, key) in k.iter().enumerate().take(4) {
                for y in texts(key) {
                    let mut n = m.clone();
                    n.remove(key);
                    n.insert(y, e[p].clone());
                    out.push(V::Dict(n));
                }
                for y in neighbours(&e[p]) {
                    let mut n = m.clone();
                    n.insert(key.clone(), y);
                    out.push(V::Dict(n));
                }
            }
            out
        }
        V::SDict(m) => {
            let k: Vec<String> = m.keys().cloned().collect();
            let e: Vec<String> = m.values().cloned().collect();
            let mut out: Vec<V> = perms(&e).into_iter().map(|e| V::SDict(k.iter().cloned().zip(e).collect())).collect();
            for (p, key) in k.iter().enumerate().take(4) {
                for y in texts(key) {
                    let mut n = m.clone();
                    n.remove(key);
                    n.insert(y, e[p].clone());
                    out.push(V::SDict(n));
                }
                for y in texts(&e[p]) {
                    let mut n = m.clone();
                    n.insert(key.clone(), y);
                    out.push(V::SDict(n));
                }
            }
            out
        }
        V::I8(a) => vec![V::I8(!a), V::I8(a ^ 1), V::I8(a.wrapping_neg())],
        V::U8(a) => vec![V::U8(!a), V::U8(a ^ 1), V::U8(a.rotate_left(4))],
        V::I16(a) => vec![V::I16(a.swap_bytes()), V::I16(a ^ 1), V::I16(a.wrapping_neg()), V::I16(a ^ 0x100)],
        V::U16(a) => vec![V::U16(a.swap_bytes()), V::U16(a ^ 1), V::U16(a ^ 0x100)],
        V::I32(a) => vec![V::I32(a.swap_bytes()), V::I32(a ^ 1), V::I32(a.wrapping_neg()), V::I32(a.rotate_left(16))],
        V::U32(a) => vec![V::U32(a.swap_bytes()), V::U32(a ^ 1), V::U32(a.rotate_left(8)), V::U32(a.rotate_left(16))],
        V::I64(a) => vec![V::I64(a.swap_bytes()), V::I64(a ^ 1), V::I64(a.wrapping_neg()), V::I64(a.rotate_left(32))],
        V::U64(a) => vec![V::U64(a.swap_bytes()), V::U64(a ^ 1), V::U64(a.rotate_left(32)), V::U64(a ^ (1 << 40))],
        V::Int(a) => vec![V::Int(a.swap_bytes()), V::Int(a ^ 1), V::Int(a.rotate_left(32)), V::Int(a ^ (1 << 40))],
        V::SInt(a) => vec![V::SInt(a.swap_bytes()), V::SInt(a ^ 1), V::SInt(a.wrapping_neg()), V::SInt(a.rotate_left(32))],
        V::F32(a) => vec![V::F32(a.swap_bytes()), V::F32(a ^ 1), V::F32(a ^ (1 << 31)), V::F32(a.rotate_left(16))],
        V::F64(a) => vec![V::F64(a.swap_bytes()), V::F64(a ^ 1), V::F64(a ^ (1 << 63)), V::F64(a.rotate_left(32))],
        V::F128(a) => {
            let mut out = vec![];
            for b in bytes(a) {
                if let Ok(b) = b.try_into() {
                    out.push(V::F128(b));
                }
            }
            out
        }
        V::Range(a, b) => vec![V::Range(*a, b ^ 1), V::Range(a ^ 1, *b), V::Range(a ^ 1, b ^ 1), V::Range(*b as u64, (a & 0xFFFF) as u16), V::Range(a.wrapping_add(1), b.wrapping_sub(1)), V::Range(*a, b.swap_bytes())],
        V::Ver(a) => perms(a).into_iter().filter_map(|b| b.try_into().ok()).map(V::Ver).chain((0..4).map(|i| {
            let mut b = *a;
            b[i] ^= 1;
            V::Ver(b)
        })).collect(),
        V::Bool(b) => vec![V::Bool(!b)],
        V::Null => vec![],
    };
    let mut out: Vec<T> = v.into_iter().map(|v| T { id: x.id, v }).filter(|y| y != x).collect();
    out.sort();
    out.dedup();
    out
}
/// `x` with one element, byte or character at place `p` changed, its size the same.
pub fn changed(x: &T, p: usize) -> Option<T> {
    let mut y = x.clone();
    fn text(s: &mut String, p: usize) -> Option<()> {
        let mut b = std::mem::take(s).into_bytes();
        let c = b.get_mut(p)?;
        if *c >= 0x80 {
            return None;
        }
        *c = if *c == b'm' { b'n' } else { b'm' };
        *s = String::from_utf8(b).ok()?;
        Some(())
    }
    match &mut y.v {
        V::Bytes(b) | V::BigInt(b) | V::BigDec(_, b) | V::Raw(b) => *b.get_mut(p)? ^= 0x10,
        V::Str(s) => text(s, p)?,
        V::Ints(a) | V::Oid(a) => *a.get_mut(p)? ^= 1,
        V::Arr(a) | V::Seq(a) => {
            let e = a.get_mut(p)?;
            *e = if *e == t(V::I8(-7)) { t(V::I8(-8)) } else { t(V::I8(-7)) };
        }
        V::Dict(m) => {
            let k = m.keys().nth(p)?.clone();
            let e = m.get_mut(&k)?;
            *e = if *e == t(V::I8(-7)) { t(V::I8(-8)) } else { t(V::I8(-7)) };
        }
        V::SDict(m) => {
            let k = m.keys().nth(p)?.clone();
            let e = m.get_mut(&k)?;
            if e.is_empty() {
                e.push('m');
            } else {
                text(e, 0)?;
            }
        }
        _ => return None,
    }
    Some(y)
}
/// Sizes on both sides of everything an implementation may treat specially.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 7, 100, 200, 243, 244, 247, 248, 249, 300, 500, 503, 504, 505, 1000, 1500, 3000, 5000, 10_000, 20_000, 65783, 65784, 65785, 70_000, 100_000];
    for k in 2..=20 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}
/// Positions in `n` bytes that stand for all: the beginning, the end, and both sides
/// of every power of two.
pub fn places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..6).chain(n.saturating_sub(3)..n).collect();
    for k in 3..=20 {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 5]);
    }
    v.extend([n / 3, n / 2]);
    v.retain(|x| *x < n);
    v.sort_unstable();
    v.dedup();
    v
}

pub const KEYS: [&str; 8] = ["", "a", "b", "\u{e9}", "aa", "\u{1F600}", "\u{FFFF}", "Z"];

/// Chooses any tree of at most `budget` tags over the given leaves.
pub fn tree(ch: &Ch, budget: &mut usize, depth: usize, leaves: &[T]) -> T {
    *budget -= 1;
    let nc = if depth == 0 { 0 } else { 3 };
    let k = ch.choose(leaves.len() + nc);
    if k < leaves.len() {
        return leaves[k].clone();
    }
    let mut kids = vec![];
    while *budget > 0 && ch.flag() {
        kids.push(tree(ch, budget, depth - 1, leaves));
    }
    wrap(k - leaves.len(), kids)
}
/// 0: sequence, 1: array, 2: dictionary.
pub fn wrap(kind: usize, kids: Vec<T>) -> T {
    match kind {
        0 => t(V::Seq(kids)),
        1 => t(V::Arr(kids)),
        _ => t(V::Dict(kids.into_iter().enumerate().map(|(i, x)| (KEYS[(7 * i + 3) % 8].to_string() + &"q".repeat(i / 8), x)).collect::<BTreeMap<_, _>>())),
    }
}
/// A chain of `depth` containers around a leaf, the kind of each level from `pat`.
pub fn chain(depth: usize, pat: &[usize], leaf: T, both_sides: bool) -> T {
    let mut x = leaf;
    for i in 0..depth {
        let kids = if both_sides { vec![t(V::U8(i as u8)), x, t(V::Null)] } else { vec![x] };
        x = wrap(pat[i % pat.len()], kids);
    }
    x
}

pub type TreeCheck = Arc<dyn Fn(&Ch, &T) -> R + Send + Sync>;

/// The value spaces shared by the properties that quantify over all tags.
pub fn tag_spaces(tier: Tier, check: TreeCheck) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut out = vec![super::huge::trees(tier, check.clone())];
    let c = check.clone();
    let ex = extremes();
    out.push(space("extremes", format!("{} tags: every type at its extreme and boundary values", ex.len()), move |ch| c(ch, ch.pick(&ex))));
    let c = check.clone();
    out.push(space("scalars16", "every value of the 8 and 16-bit integers (4 types), the same as ILInt, signed ILInt, range count and big decimal scale", move |ch| {
        let hi = ch.choose(256) as u16;
        for lo in 0..256u16 {
            let u = hi << 8 | lo;
            c(ch, &t(V::I16(u as i16)))?;
            c(ch, &t(V::U16(u)))?;
            c(ch, &t(V::Int(u as u64)))?;
            c(ch, &t(V::SInt(u as i16 as i64)))?;
            c(ch, &t(V::Range(lo as u64, u)))?;
            c(ch, &t(V::BigDec(u as i16 as i32, vec![lo as u8])))?;
            if hi == 0 {
                c(ch, &t(V::I8(lo as i8)))?;
                c(ch, &t(V::U8(lo as u8)))?;
            }
        }
        ch.visit(6 * 256 - 1);
        Ok(())
    }));
    let c = check.clone();
    let e = u64_edges();
    out.push(space("scalars64", format!("{} boundary patterns in every 32/64-bit integer, float, ILInt, range, version, array element and OID", e.len()), move |ch| {
        let x = *ch.pick(&e);
        let y = x.rotate_left(32);
        for v in [
            V::I32(x as u32 as i32), V::U32(x as u32), V::I64(x as i64), V::U64(x), V::Int(x), V::SInt(x as i64),
            V::SInt(unzigzag(x)), V::F32(x as u32), V::F32(y as u32), V::F64(x), V::Range(x, x as u16), V::BigDec(x as u32 as i32, vec![]),
            V::Ver([x as u32 as i32, y as u32 as i32, 1, -1]), V::Ver([0, -1, y as u32 as i32, x as u32 as i32]),
            V::Ints(vec![x, 1, y]), V::Oid(vec![y, x]),
        ] {
            c(ch, &t(v))?;
        }
        let mut q = [0u8; 16];
        q[..8].copy_from_slice(&x.to_le_bytes());
        q[8..].copy_from_slice(&y.to_be_bytes());
        c(ch, &t(V::F128(q)))?;
        ch.visit(16);
        Ok(())
    }));
    let c = check.clone();
    let mut ls = lengths(1 << 22);
    ls.extend([0x10000F7, 0x10000F8]);
    let nl = ls.len();
    out.push(space("lengths", format!("{} lengths up to 4 MB and around 16 MB x bytes, text, big integer, big decimal, raw, dictionary key, dictionary text", nl), move |ch| {
        let n = *ch.pick(&ls);
        match ch.choose(7) {
            0 => c(ch, &t(V::Bytes(fill(n, 1)))),
            1 => c(ch, &t(V::Str(fill(n, 2).iter().map(|b| (b & 0x7F) as char).collect()))),
            2 => c(ch, &t(V::BigInt(fill(n, 3)))),
            3 => c(ch, &t(V::BigDec(n as i32, fill(n, 4)))),
            4 => c(ch, &raw(33, &fill(n, 5))),
            5 => c(ch, &dict(&[(&"k".repeat(n), t(V::U8(1))), ("a", t(V::Bytes(fill(n, 6))))])),
            _ => c(ch, &sdict(&[(&"\u{e9}".repeat(n / 2), &"v".repeat(n)), ("a", "b")])),
        }
    }));
    let c = check.clone();
    let mut counts: Vec<usize> = (0..=if th { 520 } else { 260 }).collect();
    counts.extend([503, 504, 505, 1000, 4096]);
    counts.extend([65535, 65536, 65536 + 247, 65536 + 248]);
    out.push(space("counts", "element counts 0..260 (520 thorough) and around 504, 4096, 65536, 65784 in every container, elements of every ILInt width", move |ch| {
        let n = *ch.pick(&counts);
        let w = u64_widths();
        let small = |i: usize| match i % 5 {
            0 => t(V::U8(i as u8)),
            1 => t(V::Null),
            2 => t(V::Int(w[i % w.len()])),
            3 => t(V::Str("s".repeat(i % 4))),
            _ => t(V::Seq(vec![])),
        };
        match ch.choose(7) {
            0 => c(ch, &t(V::Ints((0..n).map(|i| w[i % w.len()]).collect()))),
            1 => c(ch, &t(V::Oid((0..n).map(|i| i as u64).collect()))),
            2 => c(ch, &t(V::Arr((0..n).map(small).collect()))),
            3 => c(ch, &t(V::Seq((0..n).map(small).collect()))),
            4 => c(ch, &t(V::Dict((0..n).map(|i| (format!("{:x}", i * 7919), small(i))).collect()))),
            5 => c(ch, &t(V::SDict((0..n).map(|i| (format!("{:x}", i * 7919), "v".repeat(i % 3))).collect()))),
            _ => c(ch, &t(V::Arr(vec![t(V::Null); n]))),
        }
    }));
    let c = check.clone();
    // The length of every level crosses an ILInt boundary at some point.
    let top = if th { 1100 } else { 560 };
    out.push(space("nested_lengths", format!("payload lengths 0..{} and around 65784 inside three levels of every container kind", top), move |ch| {
        let k = ch.choose(top + 64);
        let n = if k < top { k } else { 65784 - 48 + (k - top) };
        let pat = [ch.choose(3), ch.choose(3), ch.choose(3)];
        let leaf = if ch.flag() { t(V::Str("x".repeat(n))) } else { t(V::Bytes(fill(n, 8))) };
        c(ch, &chain(3, &pat, leaf, n % 2 == 1))
    }));
    let c = check.clone();
    let deep = if th { 200 } else { 100 };
    out.push(space("chains", format!("nesting chains of every depth up to {} (and 127 to 129, 255 to 257 and 513 with one container kind), every pattern of container kinds of period 3, with and without siblings", deep), move |ch| {
        const MORE: [usize; 7] = [127, 128, 129, 255, 256, 257, 513];
        let k = ch.choose(deep + MORE.len());
        let d = if k < deep { 1 + k } else { MORE[k - deep] };
        let p = ch.choose(3);
        let pat = if k < deep { [p, ch.choose(3), ch.choose(3)] } else { [p; 3] };
        let both = k < deep && ch.flag();
        c(ch, &chain(d, &pat, t(V::Int(d as u64 * 100)), both))
    }));
    let c = check.clone();
    let leaves = vec![t(V::Null), t(V::Int(0xF8)), t(s("\u{e9}")), raw(50, &[1])];
    let n = if th { 6 } else { 5 };
    out.push(space("trees", format!("every tree of at most {} tags over 4 leaves and sequence, array, dictionary", n), move |ch| {
        let mut b = n;
        let x = tree(ch, &mut b, n, &leaves);
        c(ch, &x)
    }));
    let c = check.clone();
    let leaves = kinds();
    let n = if th { 4 } else { 3 };
    out.push(space("trees_wide", format!("every tree of at most {} tags over one leaf of every kind", n), move |ch| {
        let mut b = n;
        let x = tree(ch, &mut b, n, &leaves);
        c(ch, &x)
    }));
    let c = check.clone();
    let mut ids: Vec<u64> = (32..=if th { 70000 } else { 1200 }).collect();
    ids.extend(u64_edges().into_iter().filter(|x| *x > 31));
    ids.extend([26, 27, 28, 29]);
    ids.extend(crate::alpha::id_aliases());
    out.push(space("ids", format!("{} unassigned explicit identifiers (all up to 1200, 70000 thorough, and the edges) as raw tags, alone and in each container", ids.len()), move |ch| {
        let id = *ch.pick(&ids);
        let x = raw(id, &[1, 2]);
        match ch.choose(5) {
            0 => c(ch, &x),
            1 => c(ch, &raw(id, &[])),
            k => c(ch, &wrap(k - 2, vec![t(V::U8(1)), x])),
        }
    }));
    let c = check.clone();
    let (top, full) = if th { (40, true) } else { (20, false) };
    out.push(space("patterns", format!("contents of 0 to {} bytes made of two runs of equal bytes (0, 1, 7F, 80, FF) split everywhere, also at 64, 128, 256 and 512 bytes, in every byte-like type; the same with elements in every container", top), move |ch| {
        const B: [u8; 5] = [0, 1, 0x7F, 0x80, 0xFF];
        const L: [usize; 8] = [63, 64, 65, 128, 255, 256, 300, 512];
        let (x, y) = (ch.choose(5), ch.choose(5));
        let n = ch.choose(top + 1 + L.len());
        let (n, splits) = if n <= top { (n, (0..n.max(1)).collect()) } else { (L[n - top - 1], places(L[n - top - 1])) };
        const U: [u64; 5] = [0, 1, 247, 248, u64::MAX];
        let leaf = |i: usize| [t(V::Null), t(V::U8(7)), t(s("")), t(V::Seq(vec![])), raw(32, &[])][i].clone();
        let mut cases = 0;
        for k in splits {
            let b: Vec<u8> = (0..n).map(|i| if i < k { B[x] } else { B[y] }).collect();
            let two = |i: usize| if i < k { x } else { y };
            let mut v = vec![V::Bytes(b.clone()), V::BigInt(b.clone()), V::BigDec(0, b.clone()), V::BigDec(-1, b.clone())];
            if full || n <= 12 || (n > 40 && [0, 1, 8, n / 2].contains(&k)) {
                v.push(V::BigDec(i32::MAX, b.clone()));
                v.push(V::Ints((0..n).map(|i| U[two(i)]).collect()));
                v.push(V::Oid((0..n).map(|i| U[two(i)]).collect()));
                v.push(V::Arr((0..n).map(|i| leaf(two(i))).collect()));
                v.push(V::Seq((0..n).map(|i| leaf(two(i))).collect()));
                v.push(V::Dict((0..n).map(|i| (format!("{:03}", i), leaf(two(i)))).collect()));
                v.push(V::SDict((0..n).map(|i| (format!("{:03}", i), ["", "v", "\u{e9}", "vv", "\0"][two(i)].to_string())).collect()));
            }
            for v in v {
                c(ch, &t(v))?;
                cases += 1;
            }
            if let Ok(q) = <[u8; 16]>::try_from(&b[..]) {
                c(ch, &t(V::F128(q)))?;
                cases += 1;
            }
            for id in [26, 32, 0x1F8] {
                c(ch, &raw(id, &b))?;
                cases += 1;
            }
            if x == y {
                break;
            }
        }
        ch.visit(cases - 1);
        Ok(())
    }));
    let c = check.clone();
    let k = if th { 3 } else { 2 };
    out.push(space("texts", format!("every sequence of up to {} of {} texts that an implementation may treat specially (line ends, NUL, byte order mark, blanks, combining and composed characters, escapes, the limits of every UTF-8 width), as string, key and value of dictionaries", k, TEXTS.len()), move |ch| {
        let n = 1 + ch.choose(k);
        let x: String = (0..n).map(|_| *ch.pick(&TEXTS)).collect();
        c(ch, &t(s(&x)))?;
        c(ch, &dict(&[(&x, t(V::U8(1))), ("m", t(s(&x)))]))?;
        c(ch, &sdict(&[(&x, &x), ("m", &x), ("", "")]))?;
        ch.visit(2);
        Ok(())
    }));
    let c = check.clone();
    let mut ls: Vec<usize> = vec![0, 1, 2, 100, 246, 247, 248, 249, 250, 502, 503, 504, 505];
    ls.extend([65535, 65783, 65784, 65785]);
    out.push(space("length_pairs", format!("every pair of {} lengths as key and value of an entry (text and tag dictionaries, alone and beside another entry) and as two elements of a sequence and an array", ls.len()), move |ch| {
        let (a, b) = (*ch.pick(&ls), *ch.pick(&ls));
        let (k, v) = ("k".repeat(a), "v".repeat(b));
        match ch.choose(6) {
            0 => c(ch, &sdict(&[(&k, &v)])),
            1 => c(ch, &sdict(&[(&k, &v), ("a", "b"), ("zz", &k)])),
            2 => c(ch, &dict(&[(&k, t(V::Str(v)))])),
            3 => c(ch, &dict(&[(&k, raw(33, v.as_bytes())), ("a", t(V::Bytes(vec![0; a])))])),
            4 => c(ch, &t(V::Seq(vec![t(V::Str(k)), raw(33, v.as_bytes())]))),
            _ => c(ch, &t(V::Arr(vec![t(V::Bytes(k.into_bytes())), t(V::BigDec(1, v.into_bytes()))]))),
        }
    }));
    let c = check.clone();
    let ns = odd_lengths(th);
    out.push(space("odd_one_out", format!("{} lengths and counts up to {} of equal bytes, numbers, characters, elements, keys and values, except one that differs (in value, in width, in type), at every place (of the longer: at both ends, around the middle and the powers of two)", ns.len(), ns[ns.len() - 1]), move |ch| {
        let n = *ch.pick(&ns);
        let kind = ch.choose(N_ODD);
        let mut cases = 0;
        for p in odd_places(n, th) {
            c(ch, &t(odd(kind, n, p)))?;
            cases += 1;
        }
        ch.visit(cases - 1);
        Ok(())
    }));
    let c = check.clone();
    let mut ls: Vec<usize> = (0..=if th { 80 } else { 40 }).collect();
    ls.extend([63, 64, 65, 127, 128, 129, 246, 247, 248, 249, 255, 256, 257, 300, 504, 512, 1000, 4096]);
    ls.sort_unstable();
    ls.dedup();
    out.push(space("key_like", format!("{} lengths up to {}: entries whose value is its key, or its key except for one place (another character, a character of two bytes, one character more or less), at every place, alone and beside entries whose keys differ from it in one place; the same with text elements beside each other", ls.len(), ls[ls.len() - 1]), move |ch| {
        let n = *ch.pick(&ls);
        let how = ch.choose(6);
        let key: String = fill(n, 7).iter().map(|b| (b'a' + b % 26) as char).collect();
        let mut cases = 0;
        let ps = if how == 0 { vec![0] } else { odd_places(n, th) };
        for p in ps {
            let at = p.min(n);
            let next = (at + 1).min(n);
            let value = match how {
                0 => key.clone(),
                1 => format!("{}Z{}", &key[..at], &key[next..]),
                2 => format!("{}\u{e9}{}", &key[..at], &key[next..]),
                3 if at + 2 <= n => format!("{}\u{e9}{}", &key[..at], &key[at + 2..]),
                4 => format!("{}{}", &key[..at], &key[next..]),
                _ => format!("{}\0{}", &key[..at], &key[at..]),
            };
            c(ch, &sdict(&[(&key, &value)]))?;
            c(ch, &dict(&[(&key, t(s(&value))), (&value, t(s(&key)))]))?;
            c(ch, &sdict(&[(&key, &value), (&value, &key), ("m", &key), ("n", &value)]))?;
            c(ch, &t(V::Seq(vec![t(s(&key)), t(s(&value)), t(V::Arr(vec![t(s(&value)), t(s(&key)), t(s(&key))]))])))?;
            cases += 4;
        }
        ch.visit(cases - 1);
        Ok(())
    }));
    out
}
/// Lengths of uniform contents.
pub fn odd_lengths(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if th { (2..=130).collect() } else { vec![2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 66, 80, 100, 127, 128, 129] };
    v.extend([200, 255, 256, 257, 300, 512, 1000, 1024, 4096]);
    v
}
/// Where one of them differs.
pub fn odd_places(n: usize, th: bool) -> Vec<usize> {
    if n <= if th { 300 } else { 80 } {
        return (0..n.max(1)).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, 2, 3, n / 4, n / 3, n / 2 - 1, n / 2, n / 2 + 1, 3 * n / 4, n - 4, n - 3, n - 2, n - 1];
    for k in 2..12 {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1, n.saturating_sub(1 << k), (n + 1).saturating_sub(1 << k)]);
    }
    v.retain(|x| *x < n);
    v.sort_unstable();
    v.dedup();
    v
}
pub const N_ODD: usize = 34;
/// `n` equal things except for place `p`.
pub fn odd(kind: usize, n: usize, p: usize) -> V {
    let b = |x: u8, y: u8| -> Vec<u8> { (0..n).map(|i| if i == p { y } else { x }).collect() };
    let u = |x: u64, y: u64| -> Vec<u64> { (0..n).map(|i| if i == p { y } else { x }).collect() };
    let c = |x: &str, y: &str| -> String { (0..n).map(|i| if i == p { y } else { x }).collect() };
    let e = |x: V, y: V| -> Vec<T> { (0..n).map(|i| t(if i == p { y.clone() } else { x.clone() })).collect() };
    let k = |i: usize| format!("{:04}", i);
    match kind {
        0 => V::Bytes(b(0, 1)),
        1 => V::Bytes(b(0xFF, 0x7F)),
        2 => V::BigInt(b(0, 0x80)),
        3 => V::BigDec(-1, b(0xFF, 0)),
        4 => V::Ints(u(0, 1)),
        5 => V::Ints(u(3, 248)),
        6 => V::Ints(u(3, u64::MAX)),
        7 => V::Ints(u(300, 1)),
        8 => V::Ints(u(1 << 40, 1 << 41)),
        9 => V::Ints(u(u64::MAX, 0)),
        10 => V::Oid(u(1, 2)),
        11 => V::Oid(u(7, 1 << 33)),
        12 => V::Oid(u(1 << 63, 248)),
        13 => V::Str(c("a", "b")),
        14 => V::Str(c("a", "\u{e9}")),
        15 => V::Str(c("a", "\0")),
        16 => V::Str(c("\u{e9}", "a")),
        17 => V::Str(c("\u{20AC}", "\u{1F600}")),
        18 => V::Seq(e(V::Null, V::Bool(true))),
        19 => V::Seq(e(V::U8(1), V::U8(2))),
        20 => V::Seq(e(V::U8(1), V::U64(2))),
        21 => V::Seq(e(V::Int(1), V::Int(1 << 20))),
        22 => V::Seq(e(V::Str("x".into()), V::Str("xyz".into()))),
        23 => V::Seq(e(V::Bytes(vec![1]), V::Bytes(vec![7; 300]))),
        24 => V::Arr(e(V::U8(1), V::I8(1))),
        25 => V::Arr(e(V::Int(1), V::Int(u64::MAX))),
        26 => V::Arr(e(V::Null, V::Seq(vec![]))),
        27 => V::Arr(e(V::Str("x".into()), V::Arr(vec![t(V::Null)]))),
        28 => V::Arr((0..n).map(|i| if i == p { raw(40, &[1, 2]) } else { t(V::U8(1)) }).collect()),
        29 => V::Arr((0..n).map(|i| if i == p { t(V::U8(1)) } else { raw(40, &[1, 2]) }).collect()),
        30 => V::Dict((0..n).map(|i| (k(i), t(if i == p { V::Str("vv".into()) } else { V::U8(1) }))).collect()),
        31 => V::Dict((0..n).map(|i| (if i == p { "".into() } else { k(i) }, t(V::Int(5)))).collect()),
        32 => V::SDict((0..n).map(|i| (k(i), if i == p { "vvv".into() } else { "v".into() })).collect()),
        _ => V::SDict((0..n).map(|i| (if i == p { "k".repeat(260) } else { k(i) }, "v".into())).collect()),
    }
}
/// Texts that an implementation may treat specially.
pub const TEXTS: [&str; 40] = [
    "a", "A", "", " ", "\t", "\n", "\r", "\r\n", "\0", "\u{1}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{7ff}", "\u{800}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}",
    "\u{10000}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\u{301}", "e\u{301}", "\u{e9}", "\u{df}", "\u{130}", "\u{fb01}", "\u{200b}", "\u{200d}", "\u{2028}", "\"", "\\", "\\0",
    "%00", "0", "-0", "\u{1F600}",
];

/// Encodes `x` choosing, within the deviation bound, another form or value for any
/// of its ILInts.
pub fn enc_deviating(ch: &Ch, x: &T) -> Vec<u8> {
    enc_with(x, &mut |site, v| {
        let w = wide_forms(v);
        let others: Vec<u64> = match site {
            Site::Id => vec![15, 16, 17, 20, 21, 22, 30, 31, 26, 32, 0, 10, u64::MAX],
            Site::Len | Site::Count => vec![v.wrapping_add(1), v.wrapping_sub(1), v + 2, v.wrapping_sub(2), 0, 248, (1 << 29) + 1, u64::MAX, 1 << 63, u64::MAX - 8],
            Site::Val => vec![v.wrapping_add(1), 0, 247, 248, u64::MAX],
        };
        let k = ch.dev(1 + w.len() + others.len() + 1);
        if k == 0 {
            ilint(v)
        } else if k <= w.len() {
            w[k - 1].clone()
        } else if k <= w.len() + others.len() {
            ilint(others[k - 1 - w.len()])
        } else {
            // An ILInt above 2^64-1.
            vec![0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x10 + (v as u8 & 0x7F)]
        }
    })
}
/// The same with other, longer than necessary, forms only.
pub fn enc_wide(ch: &Ch, x: &T) -> Vec<u8> {
    enc_with(x, &mut |_, v| {
        let w = wide_forms(v);
        if w.is_empty() {
            return ilint(v);
        }
        match ch.dev(1 + w.len()) {
            0 => ilint(v),
            k => w[k - 1].clone(),
        }
    })
}
/// Documents rich in multi-byte ILInts at every site.
pub fn wide_docs() -> Vec<T> {
    let mut v = vec![
        raw(0x1F8, &fill(250, 1)),
        raw(0x100F8, &[]),
        t(V::Int(248)),
        t(V::SInt(-200)),
        t(V::Ints(vec![248, 600, 1 << 40])),
        t(V::Oid(vec![1 << 50, 300])),
        t(V::Range(70000, 3)),
        t(V::Bytes(fill(260, 2))),
        t(V::Str("w".repeat(249))),
        t(V::BigDec(5, fill(244, 2))),
        t(V::Ints((0..248).map(|i| i % 7).collect())),
        t(V::Arr(vec![t(V::Null); 248])),
        t(V::Seq(vec![raw(300, &fill(250, 3)), t(V::Int(5000))])),
        dict(&[(&"k".repeat(248), raw(999, &[1])), ("z", t(V::Int(1 << 33)))]),
        sdict(&[("a", &"v".repeat(251)), (&"k".repeat(250), "b")]),
        t(V::SDict((0..248).map(|i| (format!("{:03}", i), String::new())).collect())),
        t(V::Dict((0..248).map(|i| (format!("{:03}", i), t(V::Null))).collect())),
    ];
    v.push(t(V::Arr(vec![t(V::Seq(vec![raw(0x1F8, &fill(300, 4)), t(V::Range(1000, 1))])), t(V::Int(248))])));
    v
}
/// How many ILInts of at least `min` the encoding of `x` holds.
pub fn ilint_sites(x: &T, min: u64) -> usize {
    let mut n = 0;
    enc_with(x, &mut |_, v| {
        n += (v >= min) as usize;
        ilint(v)
    });
    n
}
