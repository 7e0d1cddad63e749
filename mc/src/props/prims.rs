//! The reading operations of the lower layers that take a length.
use crate::env::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{ErrorKind as Io, Reader};
use il2_iltags::tags::serialization::*;

/// `Err(Some(_))`: an error of the I/O layer, as it is or inside one of the tag layer.
pub type Got = std::result::Result<Vec<u8>, Option<Io>>;
pub type LongOp = fn(&mut dyn Reader, usize) -> Got;
fn io<X>(r: il2_iltags::io::Result<X>, f: impl FnOnce(X) -> Vec<u8>) -> Got {
    r.map(f).map_err(Some)
}
fn tg<X>(r: il2_iltags::tags::Result<X>, f: impl FnOnce(X) -> Vec<u8>) -> Got {
    r.map(f).map_err(|e| match e {
        il2_iltags::tags::ErrorKind::IOError(e) => Some(e),
        _ => None,
    })
}
/// Name, whether the bytes are returned (else they are skipped), the operation.
pub fn long_ops() -> Vec<(&'static str, bool, LongOp)> {
    fn text(s: String) -> Vec<u8> {
        s.into_bytes()
    }
    fn same(b: Vec<u8>) -> Vec<u8> {
        b
    }
    vec![
        ("read_all", true, |r, n| {
            let mut b = vec![0xEE; n];
            io(r.read_all(&mut b), |_| b)
        }),
        ("sized read_all", true, |r, n| {
            let mut b = vec![0xEE; n];
            io(Fwd(r).read_all(&mut b), |_| b)
        }),
        ("read_string", true, |r, n| io(r.read_string(n), text)),
        ("sized read_string", true, |r, n| io(Fwd(r).read_string(n), text)),
        ("function read_string", true, |r, n| io(read_string(r, n), text)),
        ("deserialize_string", true, |r, n| tg(r.deserialize_string(n), text)),
        ("sized deserialize_string", true, |r, n| tg(Fwd(r).deserialize_string(n), text)),
        ("through StringValueReader", true, |r, n| tg((&mut Fwd(r) as &mut dyn StringValueReader).deserialize_string(n), text)),
        ("deserialize_bytes", true, |r, n| tg(r.deserialize_bytes(n), same)),
        ("sized deserialize_bytes", true, |r, n| tg(Fwd(r).deserialize_bytes(n), same)),
        ("deserialize_bytes_into_slice", true, |r, n| {
            let mut b = vec![0xEE; n];
            tg(r.deserialize_bytes_into_slice(&mut b), |_| b)
        }),
        ("sized deserialize_bytes_into_slice", true, |r, n| {
            let mut b = vec![0xEE; n];
            tg(Fwd(r).deserialize_bytes_into_slice(&mut b), |_| b)
        }),
        ("deserialize_bytes_into_vec", true, |r, n| {
            let mut b = vec![];
            tg(r.deserialize_bytes_into_vec(n, &mut b), |_| b)
        }),
        ("deserialize_bytes_into_vec, longer before", true, |r, n| {
            let mut b = vec![7; n + 9];
            tg(r.deserialize_bytes_into_vec(n, &mut b), |_| b)
        }),
        ("sized deserialize_bytes_into_vec", true, |r, n| {
            let mut b = vec![7; n / 2];
            tg(Fwd(r).deserialize_bytes_into_vec(n, &mut b), |_| b)
        }),
        ("legacy deserialize_bytes", true, |r, n| tg(il2_iltags::tags::deserialize_bytes(n, r), same)),
        ("legacy deserialize_bytes_into_vec", true, |r, n| {
            let mut b = vec![7; 3];
            tg(il2_iltags::tags::deserialize_bytes_into_vec(n, r, &mut b), |_| b)
        }),
        ("skip", false, |r, n| io(r.skip(n), |_| vec![])),
        ("sized skip", false, |r, n| io(Fwd(r).skip(n), |_| vec![])),
        ("skip_u64", false, |r, n| io(r.skip_u64(n as u64), |_| vec![])),
    ]
}
/// `n` bytes of text, and what follows.
pub fn long_data(n: usize, tail: usize) -> Vec<u8> {
    let mut b: Vec<u8> = crate::alpha::fill(n, 1 + n as u64).iter().map(|x| x & 0x7F).collect();
    b.extend((0..tail).map(|i| 0x30 | (i % 0x40) as u8));
    b
}
