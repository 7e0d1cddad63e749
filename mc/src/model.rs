//! Reference model of the ILTags format, written from the specification: no code
//! shared with the crate, u128 arithmetic, own UTF-8 automaton.
use std::collections::BTreeMap;

pub const MAX: u64 = 512 * 1024 * 1024;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Null,
    Bool(bool),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Int(u64),
    /// Floats are compared by their bits.
    F32(u32),
    F64(u64),
    F128([u8; 16]),
    SInt(i64),
    Bytes(Vec<u8>),
    Str(String),
    BigInt(Vec<u8>),
    BigDec(i32, Vec<u8>),
    Ints(Vec<u64>),
    Arr(Vec<T>),
    Seq(Vec<T>),
    Range(u64, u16),
    Ver([i32; 4]),
    Oid(Vec<u64>),
    Dict(BTreeMap<String, T>),
    SDict(BTreeMap<String, String>),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct T {
    pub id: u64,
    pub v: V,
}

pub fn t(v: V) -> T {
    T { id: std_id(&v), v }
}
pub fn raw(id: u64, b: &[u8]) -> T {
    T { id, v: V::Raw(b.to_vec()) }
}

pub fn std_id(v: &V) -> u64 {
    match v {
        V::Null => 0,
        V::Bool(_) => 1,
        V::I8(_) => 2,
        V::U8(_) => 3,
        V::I16(_) => 4,
        V::U16(_) => 5,
        V::I32(_) => 6,
        V::U32(_) => 7,
        V::I64(_) => 8,
        V::U64(_) => 9,
        V::Int(_) => 10,
        V::F32(_) => 11,
        V::F64(_) => 12,
        V::F128(_) => 13,
        V::SInt(_) => 14,
        V::Bytes(_) => 16,
        V::Str(_) => 17,
        V::BigInt(_) => 18,
        V::BigDec(..) => 19,
        V::Ints(_) => 20,
        V::Arr(_) => 21,
        V::Seq(_) => 22,
        V::Range(..) => 23,
        V::Ver(_) => 24,
        V::Oid(_) => 25,
        V::Dict(_) => 30,
        V::SDict(_) => 31,
        V::Raw(_) => panic!("harness: raw tags have no standard id"),
    }
}

//---------------------------------------------------------------------------
// ILInt
//---------------------------------------------------------------------------
pub fn ilint(v: u64) -> Vec<u8> {
    if v < 248 {
        return vec![v as u8];
    }
    let r = v as u128 - 248;
    let mut n = 1usize;
    while r >= 1u128 << (8 * n) {
        n += 1;
    }
    ilint_wide(v, n)
}
/// The (possibly longer than necessary) encoding with an n-byte body.
pub fn ilint_wide(v: u64, n: usize) -> Vec<u8> {
    let r = v as u128 - 248;
    assert!(n >= 1 && n <= 8 && (n == 8 || r < 1u128 << (8 * n)));
    let mut o = vec![(247 + n) as u8];
    for i in (0..n).rev() {
        o.push((r / (1u128 << (8 * i)) % 256) as u8);
    }
    o
}
/// Stack-allocated variant for the large sweeps.
#[inline]
pub fn ilint_arr(v: u64) -> ([u8; 9], usize) {
    let mut o = [0u8; 9];
    if v < 248 {
        o[0] = v as u8;
        return (o, 1);
    }
    let r = v as u128 - 248;
    let mut n = 1usize;
    while r >= 1u128 << (8 * n) {
        n += 1;
    }
    o[0] = (247 + n) as u8;
    for i in 0..n {
        o[n - i] = (r / (1u128 << (8 * i)) % 256) as u8;
    }
    (o, n + 1)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    /// The data ends before the tag does.
    Eof,
    Corrupt,
    TooLarge,
    Unknown,
}
pub type MR<X> = Result<X, E>;

/// Decodes an ILInt at the start of `b`: value and bytes used.
pub fn un_ilint(b: &[u8]) -> MR<(u64, usize)> {
    let h = *b.first().ok_or(E::Eof)?;
    if h < 248 {
        return Ok((h as u64, 1));
    }
    let n = h as usize - 247;
    if b.len() < n + 1 {
        return Err(E::Eof);
    }
    let mut r: u128 = 0;
    for x in &b[1..=n] {
        r = r * 256 + *x as u128;
    }
    r += 248;
    if r > u64::MAX as u128 {
        Err(E::Corrupt)
    } else {
        Ok((r as u64, n + 1))
    }
}

pub fn zigzag(v: i64) -> u64 {
    let w = v as i128;
    (if w >= 0 { 2 * w } else { -2 * w - 1 }) as u64
}
pub fn unzigzag(u: u64) -> i64 {
    let w = u as i128;
    (if w % 2 == 0 { w / 2 } else { -(w + 1) / 2 }) as i64
}

//---------------------------------------------------------------------------
// UTF-8 (Unicode table 3-7)
//---------------------------------------------------------------------------
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        if i + n >= b.len() {
            return false;
        }
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if b[i + k] < l || b[i + k] > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
fn text(b: &[u8]) -> MR<String> {
    if !utf8_ok(b) {
        return Err(E::Corrupt);
    }
    // Valid by the automaton above.
    Ok(String::from_utf8(b.to_vec()).expect("harness: utf8 automaton"))
}

//---------------------------------------------------------------------------
// Encoder
//---------------------------------------------------------------------------
fn be(o: &mut Vec<u8>, v: u128, n: usize) {
    for i in (0..n).rev() {
        o.push((v >> (8 * i)) as u8);
    }
}
fn str_tag(o: &mut Vec<u8>, s: &str) {
    o.push(17);
    o.extend(ilint(s.len() as u64));
    o.extend_from_slice(s.as_bytes());
}
pub fn enc_value(v: &V) -> Vec<u8> {
    let mut o = Vec::new();
    match v {
        V::Null => {}
        V::Bool(b) => o.push(if *b { 1 } else { 0 }),
        V::I8(x) => be(&mut o, *x as i128 as u128, 1),
        V::U8(x) => be(&mut o, *x as u128, 1),
        V::I16(x) => be(&mut o, *x as i128 as u128, 2),
        V::U16(x) => be(&mut o, *x as u128, 2),
        V::I32(x) => be(&mut o, *x as i128 as u128, 4),
        V::U32(x) => be(&mut o, *x as u128, 4),
        V::I64(x) => be(&mut o, *x as i128 as u128, 8),
        V::U64(x) => be(&mut o, *x as u128, 8),
        V::Int(x) => o = ilint(*x),
        V::F32(x) => be(&mut o, *x as u128, 4),
        V::F64(x) => be(&mut o, *x as u128, 8),
        V::F128(x) => o.extend_from_slice(x),
        V::SInt(x) => o = ilint(zigzag(*x)),
        V::Bytes(b) | V::BigInt(b) | V::Raw(b) => o.extend_from_slice(b),
        V::Str(s) => o.extend_from_slice(s.as_bytes()),
        V::BigDec(s, b) => {
            be(&mut o, *s as i128 as u128, 4);
            o.extend_from_slice(b);
        }
        V::Ints(a) | V::Oid(a) => {
            o.extend(ilint(a.len() as u64));
            for x in a {
                o.extend(ilint(*x));
            }
        }
        V::Arr(a) => {
            o.extend(ilint(a.len() as u64));
            for x in a {
                enc_into(x, &mut o);
            }
        }
        V::Seq(a) => {
            for x in a {
                enc_into(x, &mut o);
            }
        }
        V::Range(s, c) => {
            o.extend(ilint(*s));
            be(&mut o, *c as u128, 2);
        }
        V::Ver(a) => {
            for x in a {
                be(&mut o, *x as i128 as u128, 4);
            }
        }
        // BTreeMap<String, _> iterates in the byte order of the keys.
        V::Dict(m) => {
            o.extend(ilint(m.len() as u64));
            for (k, x) in m {
                str_tag(&mut o, k);
                enc_into(x, &mut o);
            }
        }
        V::SDict(m) => {
            o.extend(ilint(m.len() as u64));
            for (k, x) in m {
                str_tag(&mut o, k);
                str_tag(&mut o, x);
            }
        }
    }
    o
}
pub fn enc_into(t: &T, o: &mut Vec<u8>) {
    o.extend(ilint(t.id));
    let v = enc_value(&t.v);
    if t.id >= 16 {
        o.extend(ilint(v.len() as u64));
    }
    o.extend(v);
}
pub fn enc(t: &T) -> Vec<u8> {
    let mut o = Vec::new();
    enc_into(t, &mut o);
    o
}
/// id + declared size + arbitrary value bytes.
pub fn frame(id: u64, val: &[u8]) -> Vec<u8> {
    let mut o = ilint(id);
    o.extend(ilint(val.len() as u64));
    o.extend_from_slice(val);
    o
}

//---------------------------------------------------------------------------
// Decoder
//---------------------------------------------------------------------------
/// Cursor over the bytes the current container may use.
struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    /// True when the end of `b` is the end of the data; inside a container whose
    /// declared end lies within the data, running out is a format error.
    real_end: bool,
    strict: bool,
    /// The user registered the standard types under identifiers of their own.
    own: bool,
}
/// Identifiers of the user for the standard kinds: (identifier, kind).
pub const OWN_BASES: [(u64, u64); 2] = [(100, 0), (1 << 32, 7)];
pub const OWN_KINDS: [u64; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 19, 20, 21, 22, 23, 24, 25, 30, 31];
/// The standard kind registered under the identifier `id` of the user.
pub fn own_kind(id: u64) -> Option<u64> {
    OWN_BASES.iter().find_map(|(b, rot)| {
        let i = OWN_KINDS.iter().position(|k| id.checked_sub(*b) == Some(*k))?;
        Some(OWN_KINDS[(i + *rot as usize) % OWN_KINDS.len()])
    })
}
/// The identifier of the user for a standard kind.
pub fn own_id(kind: u64, base: usize) -> Option<u64> {
    let (b, rot) = OWN_BASES[base];
    let i = OWN_KINDS.iter().position(|k| *k == kind)?;
    Some(b + OWN_KINDS[(i + OWN_KINDS.len() - rot as usize) % OWN_KINDS.len()])
}
/// The tree with every tag (or, for base 2, every other tag) under an identifier of
/// the user.
pub fn owned(x: &T, base: usize) -> T {
    fn go(x: &T, base: usize, n: &mut usize) -> T {
        let k = *n;
        *n += 1;
        let b = match base {
            0 | 1 => Some(base),
            _ => [None, Some(0), Some(1)][(k + base) % 3],
        };
        let id = match (&x.v, b) {
            (V::Raw(_), _) | (_, None) => x.id,
            (v, Some(b)) => own_id(std_id(v), b).unwrap_or(x.id),
        };
        let v = match &x.v {
            V::Arr(a) => V::Arr(a.iter().map(|e| go(e, base, n)).collect()),
            V::Seq(a) => V::Seq(a.iter().map(|e| go(e, base, n)).collect()),
            V::Dict(m) => V::Dict(m.iter().map(|(k, e)| (k.clone(), go(e, base, n))).collect()),
            v => v.clone(),
        };
        T { id, v }
    }
    go(x, base, &mut 0)
}
impl<'a> Cur<'a> {
    fn short<X>(&self) -> MR<X> {
        Err(if self.real_end { E::Eof } else { E::Corrupt })
    }
    fn int(&mut self) -> MR<u64> {
        match un_ilint(&self.b[self.p..]) {
            Ok((v, n)) => {
                self.p += n;
                Ok(v)
            }
            Err(E::Eof) => self.short(),
            Err(e) => Err(e),
        }
    }
    fn take(&mut self, n: u64) -> MR<&'a [u8]> {
        if n > (self.b.len() - self.p) as u64 {
            declared(n);
            return self.short();
        }
        let r = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(r)
    }
    fn num(&mut self, n: u64) -> MR<u128> {
        Ok(self.take(n)?.iter().fold(0u128, |a, x| a * 256 + *x as u128))
    }
    fn str_tag(&mut self) -> MR<String> {
        if self.int()? != 17 {
            return Err(E::Corrupt);
        }
        let n = self.int()?;
        if n > MAX {
            return Err(E::TooLarge);
        }
        text(self.take(n)?)
    }
    fn tag(&mut self) -> MR<T> {
        let id = self.int()?;
        if id < 16 {
            let v = self.implicit(id)?;
            return Ok(T { id, v });
        }
        self.explicit(id)
    }
    fn implicit(&mut self, kind: u64) -> MR<V> {
        Ok(match kind {
                0 => V::Null,
                1 => match self.num(1)? {
                    0 => V::Bool(false),
                    1 => V::Bool(true),
                    _ => return Err(E::Corrupt),
                },
                2 => V::I8(self.num(1)? as i8),
                3 => V::U8(self.num(1)? as u8),
                4 => V::I16(self.num(2)? as i16),
                5 => V::U16(self.num(2)? as u16),
                6 => V::I32(self.num(4)? as i32),
                7 => V::U32(self.num(4)? as u32),
                8 => V::I64(self.num(8)? as i64),
                9 => V::U64(self.num(8)? as u64),
                10 => V::Int(self.int()?),
                11 => V::F32(self.num(4)? as u32),
                12 => V::F64(self.num(8)? as u64),
                13 => V::F128(self.take(16)?.try_into().unwrap()),
                14 => V::SInt(unzigzag(self.int()?)),
                _ => return Err(E::Unknown),
        })
    }
    fn explicit(&mut self, id: u64) -> MR<T> {
        let n = self.int()?;
        if n > MAX {
            return Err(E::TooLarge);
        }
        let own = if self.own { own_kind(id) } else { None };
        let known = own.is_some() || matches!(id, 16..=25 | 30 | 31);
        if !known && self.strict {
            return Err(E::Unknown);
        }
        let avail = (self.b.len() - self.p) as u64;
        if n > avail {
            declared(n);
        }
        let end = self.p + n.min(avail) as usize;
        let mut c = Cur {
            b: &self.b[..end],
            p: self.p,
            // Cut off by the data rather than by the declared length?
            real_end: self.real_end && n >= avail && (n > avail),
            strict: self.strict,
            own: self.own,
        };
        let cut = n > avail;
        let v = match own {
            Some(k) if k < 16 => c.implicit(k)?,
            k => c.value(k.unwrap_or(id), n, cut)?,
        };
        if cut {
            return self.short();
        }
        if c.p != end {
            return Err(E::Corrupt);
        }
        self.p = end;
        Ok(T { id, v })
    }
    fn value(&mut self, id: u64, n: u64, cut: bool) -> MR<V> {
        let whole = |c: &mut Self| -> MR<&'a [u8]> {
            if cut {
                c.short()
            } else {
                c.take(n)
            }
        };
        Ok(match id {
            16 => V::Bytes(whole(self)?.to_vec()),
            17 => V::Str(text(whole(self)?)?),
            18 => V::BigInt(whole(self)?.to_vec()),
            19 => {
                if n < 4 {
                    return Err(E::Corrupt);
                }
                let s = self.num(4)? as u32 as i32;
                if cut {
                    return self.short();
                }
                V::BigDec(s, self.take(n - 4)?.to_vec())
            }
            20 | 25 => {
                let k = self.int()?;
                if k > n {
                    return Err(E::Corrupt);
                }
                let mut a = vec![];
                for _ in 0..k {
                    a.push(self.int()?);
                }
                if id == 20 {
                    V::Ints(a)
                } else {
                    V::Oid(a)
                }
            }
            21 => {
                let k = self.int()?;
                if k > n {
                    return Err(E::Corrupt);
                }
                let mut a = vec![];
                for _ in 0..k {
                    a.push(self.tag()?);
                }
                V::Arr(a)
            }
            22 => {
                let mut a = vec![];
                while self.p < self.b.len() || cut {
                    a.push(self.tag()?);
                }
                V::Seq(a)
            }
            23 => {
                let s = self.int()?;
                V::Range(s, self.num(2)? as u16)
            }
            24 => {
                if n != 16 {
                    return Err(E::Corrupt);
                }
                let mut a = [0i32; 4];
                for x in &mut a {
                    *x = self.num(4)? as u32 as i32;
                }
                V::Ver(a)
            }
            30 => {
                let k = self.int()?;
                let mut m = BTreeMap::new();
                for _ in 0..k {
                    let key = self.str_tag()?;
                    let x = self.tag()?;
                    m.insert(key, x);
                }
                V::Dict(m)
            }
            31 => {
                let k = self.int()?;
                let mut m = BTreeMap::new();
                for _ in 0..k {
                    let key = self.str_tag()?;
                    let x = self.str_tag()?;
                    m.insert(key, x);
                }
                V::SDict(m)
            }
            _ => V::Raw(whole(self)?.to_vec()),
        })
    }
}

/// Decodes one tag at the start of `b`: the tag and the bytes it occupies.
pub fn dec(b: &[u8], strict: bool) -> MR<(T, usize)> {
    dec_with(b, strict, false)
}
/// The same with the standard types also registered as `own_kind` says.
pub fn dec_with(b: &[u8], strict: bool, own: bool) -> MR<(T, usize)> {
    let mut c = Cur { b, p: 0, real_end: true, strict, own };
    let x = c.tag()?;
    Ok((x, c.p))
}

/// Whether a decoder may legitimately reserve more than `limit` for this input because
/// of a declared (not supplied) length: used to keep bulk sweeps away from inputs that
/// are merely slow. Short data is scanned for anything that could be read as a length;
/// longer data is decoded by the model, which notes the lengths it meets.
pub fn heavy(b: &[u8], limit: u64) -> bool {
    if b.len() <= 64 {
        return (0..b.len()).any(|i| b[i] >= 0xF9 && matches!(un_ilint(&b[i..]), Ok((v, _)) if v > limit && v <= MAX));
    }
    for own in [false, true] {
        DECLARED.with(|d| d.set(0));
        let _ = dec_with(b, false, own);
        if DECLARED.with(|d| d.get()) > limit {
            return true;
        }
    }
    false
}
thread_local! {
    /// The largest length met that goes beyond the data.
    static DECLARED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn declared(n: u64) {
    if n <= MAX {
        DECLARED.with(|d| d.set(d.get().max(n)));
    }
}

/// Number of tags in the tree.
pub fn count(x: &T) -> usize {
    1 + match &x.v {
        V::Arr(a) | V::Seq(a) => a.iter().map(count).sum(),
        V::Dict(m) => m.values().map(count).sum(),
        _ => 0,
    }
}
pub fn depth(x: &T) -> usize {
    1 + match &x.v {
        V::Arr(a) | V::Seq(a) => a.iter().map(depth).max().unwrap_or(0),
        V::Dict(m) => m.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(80).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// Where an ILInt of the format stands.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Site {
    Id,
    Len,
    Count,
    Val,
}
/// Encodes with every ILInt produced by `f` (lengths are those of the bytes really
/// produced before `f` changes them).
pub fn enc_with(x: &T, f: &mut dyn FnMut(Site, u64) -> Vec<u8>) -> Vec<u8> {
    let mut o = f(Site::Id, x.id);
    let v = value_with(&x.v, f);
    if x.id >= 16 {
        o.extend(f(Site::Len, v.len() as u64));
    }
    o.extend(v);
    o
}
fn text_with(s: &str, f: &mut dyn FnMut(Site, u64) -> Vec<u8>) -> Vec<u8> {
    let mut o = f(Site::Id, 17);
    o.extend(f(Site::Len, s.len() as u64));
    o.extend_from_slice(s.as_bytes());
    o
}
fn value_with(v: &V, f: &mut dyn FnMut(Site, u64) -> Vec<u8>) -> Vec<u8> {
    let mut o = vec![];
    match v {
        V::Int(x) => o = f(Site::Val, *x),
        V::SInt(x) => o = f(Site::Val, zigzag(*x)),
        V::Ints(a) | V::Oid(a) => {
            o = f(Site::Count, a.len() as u64);
            for x in a {
                o.extend(f(Site::Val, *x));
            }
        }
        V::Arr(a) => {
            o = f(Site::Count, a.len() as u64);
            for x in a {
                o.extend(enc_with(x, f));
            }
        }
        V::Seq(a) => {
            for x in a {
                o.extend(enc_with(x, f));
            }
        }
        V::Range(s, c) => {
            o = f(Site::Val, *s);
            be(&mut o, *c as u128, 2);
        }
        V::Dict(m) => {
            o = f(Site::Count, m.len() as u64);
            for (k, x) in m {
                o.extend(text_with(k, f));
                o.extend(enc_with(x, f));
            }
        }
        V::SDict(m) => {
            o = f(Site::Count, m.len() as u64);
            for (k, x) in m {
                o.extend(text_with(k, f));
                o.extend(text_with(x, f));
            }
        }
        v => o = enc_value(v),
    }
    o
}
/// The widest and the other longer than necessary forms of an ILInt.
pub fn wide_forms(v: u64) -> Vec<Vec<u8>> {
    let min = ilint(v).len();
    if v < 248 {
        return vec![];
    }
    (min..=8).map(|n| ilint_wide(v, n)).collect()
}
