//! Shared by the raw scanning properties: the layout the bytes themselves have.
use crate::env::*;
use crate::model::*;
use il2_iltags::io::{Reader, Result};
use il2_iltags::tags::raw::*;

/// A reader behind a reference, as a sized type.
pub struct D<'a>(pub &'a mut dyn Reader);
impl<'a> Reader for D<'a> {
    fn read(&mut self) -> Result<u8> {
        self.0.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> Result<()> {
        self.0.read_all(b)
    }
    fn skip(&mut self, n: usize) -> Result<()> {
        self.0.skip(n)
    }
    fn skip_u64(&mut self, n: u64) -> Result<()> {
        self.0.skip_u64(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct L {
    pub id: u64,
    pub off: u64,
    pub hdr: u64,
    pub val: u64,
}
impl L {
    pub fn end(&self) -> u64 {
        self.off + self.hdr + self.val
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Next {
    Tag(L),
    /// Nothing well-framed follows.
    Bad,
    /// The frame is there, but the number inside it is not one a tag may have.
    Either(L),
}
/// What follows at `p` in `b`.
pub fn next(b: &[u8], p: usize) -> Next {
    let (id, n) = match un_ilint(&b[p..]) {
        Ok(x) => x,
        Err(_) => return Next::Bad,
    };
    let q = p + n;
    let (hdr, val) = match id {
        0 => (n, 0u64),
        1..=3 => (n, 1),
        4 | 5 => (n, 2),
        6 | 7 | 11 => (n, 4),
        8 | 9 | 12 => (n, 8),
        13 => (n, 16),
        10 | 14 => match b.get(q) {
            None => return Next::Bad,
            Some(h) => (n, if *h < 248 { 1 } else { *h as u64 - 246 }),
        },
        15 => return Next::Bad,
        _ => match un_ilint(&b[q..]) {
            Ok((v, m)) => (n + m, v),
            Err(_) => return Next::Bad,
        },
    };
    let l = L { id, off: p as u64, hdr: hdr as u64, val };
    if (p + hdr) as u128 + val as u128 > b.len() as u128 {
        return Next::Bad;
    }
    if (id == 10 || id == 14) && un_ilint(&b[q..]).is_err() {
        return Next::Either(l);
    }
    Next::Tag(l)
}
/// All tags of well-formed data.
pub fn layout(b: &[u8]) -> Vec<L> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        match next(b, p) {
            Next::Tag(l) => {
                p = l.end() as usize;
                v.push(l);
            }
            _ => panic!("harness: not well-formed: {}", hex(b)),
        }
    }
    v
}
/// Every accessor of `e` against the layout, and its slices of `b` if given.
pub fn same(e: &RawTagOffset, l: &L, b: Option<&[u8]>) -> std::result::Result<(), String> {
    let got = [
        e.id(),
        e.offset(),
        e.value_offset(),
        e.value_size(),
        e.size(),
        e.next_tag_offset(),
        e.tag_start() as u64,
        e.tag_end() as u64,
        e.value_start() as u64,
        e.value_end() as u64,
    ];
    let want = [l.id, l.off, l.off + l.hdr, l.val, l.hdr + l.val, l.end(), l.off, l.end(), l.off + l.hdr, l.end()];
    if got != want {
        return Err(format!("entry {:?}: (id, offset, value offset, value size, size, next, tag start, tag end, value start, value end) is {:?}, expected {:?}", e, got, want));
    }
    if let Some(b) = b {
        let (o, v, n) = (l.off as usize, (l.off + l.hdr) as usize, l.end() as usize);
        let t = e.tag_slice(b);
        if t.as_ptr() != b[o..].as_ptr() || t.len() != n - o {
            return Err(format!("the tag slice of {:?} is not bytes {}..{}", e, o, n));
        }
        let t = e.value_slice(b);
        if t.as_ptr() != b[v..].as_ptr() || t.len() != n - v {
            return Err(format!("the value slice of {:?} is not bytes {}..{}", e, v, n));
        }
    }
    Ok(())
}
/// The readers for scanning: those of the environment, and a user reader with only
/// the required method through the default ones.
pub fn with<X>(k: usize, b: &[u8], f: impl FnOnce(&mut D) -> X) -> (X, usize) {
    with_reader(k, b, |r| f(&mut D(r)))
}
