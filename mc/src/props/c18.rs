//! C18: serialization is exact on every sink and a write failure surfaces.
use super::docs::*;
use crate::alpha::fill;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{Reader, WriteWriter, Writer};
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::any::Any;
use std::collections::BTreeMap;
use std::sync::Arc;

/// A failure must come back as an error; which one is not promised.
fn prefix(out: &[u8], b: &[u8], what: &dyn Fn() -> String) -> R {
    if out.len() <= b.len() && out == &b[..out.len()] {
        Ok(())
    } else {
        Err(format!("{}: {} was written, which is no prefix of {}", what(), hex(out), hex(b)))
    }
}

/// A tag whose value cannot be written: it fails after some bytes.
struct Failing {
    len: usize,
    at: usize,
}
impl ILTag for Failing {
    fn id(&self) -> u64 {
        77
    }
    fn value_size(&self) -> u64 {
        self.len as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        for i in 0..self.len {
            if i == self.at {
                return Err(ErrorKind::Boxed(Box::new(Injected(i as u64))));
            }
            w.write(i as u8)?;
        }
        if self.at >= self.len {
            return Err(ErrorKind::UnableToSerialize);
        }
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> {
        Err(ErrorKind::CorruptedData)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}

#[derive(Clone, Copy)]
enum What {
    Tag,
    Value,
}
fn go(tag: &dyn ILTag, what: What, w: &mut dyn Writer) -> Result<()> {
    match what {
        What::Tag => tag.serialize(w),
        What::Value => tag.serialize_value(w),
    }
}

/// Fails every write in turn; also the exact sizes of a full sink.
fn all_faults(ch: &Ch, tag: &dyn ILTag, what: What, b: &[u8], kinds: usize) -> R {
    for bytewise in [false, true] {
        let mut w = FaultWriter::new(usize::MAX, 0, bytewise);
        go(tag, what, &mut w).map_err(|e| format!("{}: {:?}", hex(b), e))?;
        ensure!(w.out == b, "{} written as {}", hex(b), hex(&w.out));
        for at in 0..w.ops {
            for kind in 0..kinds {
                let mut w = FaultWriter::new(at, kind, bytewise);
                let r = go(tag, what, &mut w);
                ensure!(w.failed, "harness: the failure was not reached");
                ensure!(r.is_err(), "writing {} succeeds although write {} failed", hex(b), at);
                ensure!(w.after == 0, "writing {}: {} writes after the failure of write {}", hex(b), w.after, at);
                prefix(&w.out, b, &|| format!("write {} failed", at))?;
                ch.op();
            }
        }
    }
    Ok(())
}
fn all_capacities(ch: &Ch, tag: &dyn ILTag, b: &[u8]) -> R {
    for cap in 0..=b.len() + 1 {
        let mut buf = vec![0xEE; cap];
        let (r, n) = {
            let mut w = ByteArrayWriter::new(&mut buf);
            (tag.serialize(&mut w), w.get_offset())
        };
        ensure!(r.is_ok() == (cap >= b.len()), "writing {} ({} bytes) in {} bytes: {:?}", hex(b), b.len(), cap, r);
        ensure!(n <= cap, "offset {} in a buffer of {} bytes", n, cap);
        prefix(&buf[..n], b, &|| format!("a buffer of {} bytes", cap))?;
        ensure!(buf[n..].iter().all(|x| *x == 0xEE), "a buffer of {} bytes is changed beyond its offset {}", cap, n);
        if r.is_ok() {
            ensure!(n == b.len(), "{} bytes written of {}", n, b.len());
        }
        // A fixed-size std stream.
        let mut buf = vec![0xEE; cap];
        let (r, n) = {
            let mut c = std::io::Cursor::new(&mut buf[..]);
            (tag.serialize(&mut c), c.position() as usize)
        };
        ensure!(r.is_ok() == (cap >= b.len()), "writing {} ({} bytes) in a stream of {} bytes: {:?}", hex(b), b.len(), cap, r);
        prefix(&buf[..n], b, &|| format!("a stream of {} bytes", cap))?;
        ensure!(buf[n..].iter().all(|x| *x == 0xEE), "a stream of {} bytes is changed beyond its position {}", cap, n);
        let mut buf = vec![0xEE; cap];
        let (r, left) = {
            let mut s = &mut buf[..];
            let r = tag.serialize(&mut WriteWriter::new(&mut s));
            (r, s.len())
        };
        let n = cap - left;
        ensure!(r.is_ok() == (cap >= b.len()), "writing {} ({} bytes) in a slice of {} bytes: {:?}", hex(b), b.len(), cap, r);
        prefix(&buf[..n], b, &|| format!("a slice of {} bytes", cap))?;
        ensure!(buf[n..].iter().all(|x| *x == 0xEE), "a slice of {} bytes is changed beyond what it took", cap);
        ch.ops(3);
    }
    Ok(())
}
fn all_stream_faults(ch: &Ch, tag: &dyn ILTag, b: &[u8], step: usize) -> R {
    let mk = |at: usize, zero: bool, kind| FaultWrite { out: vec![], calls: 0, at, zero, kind, step, failed: false, after: 0 };
    let mut s = mk(usize::MAX, false, std::io::ErrorKind::Other);
    tag.serialize(&mut WriteWriter::new(&mut s)).map_err(|e| format!("{}: {:?}", hex(b), e))?;
    ensure!(s.out == b, "{} written as {} in steps of {}", hex(b), hex(&s.out), step);
    for at in 0..s.calls {
        for kind in 0..=IO_KINDS.len() {
            let zero = kind == IO_KINDS.len();
            let k = IO_KINDS[kind % IO_KINDS.len()];
            let mut s = mk(at, zero, k);
            let r = tag.serialize(&mut WriteWriter::new(&mut s));
            ensure!(r.is_err(), "writing {} succeeds although call {} failed ({:?}, nothing taken: {})", hex(b), at, k, zero);
            ensure!(s.after == 0, "writing {}: the stream is written to after the failure of call {}", hex(b), at);
            prefix(&s.out, b, &|| format!("call {} failed", at))?;
            let mut s = SeekW(mk(at, zero, k));
            let r = tag.serialize(&mut s);
            ensure!(r.is_err(), "writing {} to a seekable stream succeeds although call {} failed ({:?}, nothing taken: {})", hex(b), at, k, zero);
            ensure!(s.0.after == 0, "writing {}: the seekable stream is written to after the failure of call {}", hex(b), at);
            prefix(&s.0.out, b, &|| format!("call {} failed", at))?;
            ch.ops(2);
        }
    }
    Ok(())
}
struct SeekW(FaultWrite);
impl std::io::Write for SeekW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for SeekW {
    fn seek(&mut self, _: std::io::SeekFrom) -> std::io::Result<u64> {
        Ok(self.0.out.len() as u64)
    }
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    spaces.push(super::huge::writing(tier));
    let all: Arc<Vec<T>> = Arc::new({
        let mut v = docs();
        v.extend(own_docs());
        v.extend(extremes().into_iter().filter(|x| enc(x).len() < 60));
        v
    });
    let big: Arc<Vec<T>> = Arc::new({
        let mut v = big_docs();
        v.extend(extremes().into_iter().filter(|x| enc(x).len() >= 60));
        v
    });
    {
        let set: Vec<T> = all.iter().chain(big.iter()).cloned().chain([t(V::Bytes(crate::alpha::fill(70000, 3))), t(V::Str("\u{e9}".repeat(40000)))]).collect();
        let n = set.len();
        let set = Arc::new(set);
        spaces.push(space("writers", format!("{} documents x {} kinds of writer, whole and value only", n, N_WRITERS), move |ch| {
            let x = ch.pick(&set);
            let k = ch.choose(N_WRITERS);
            let b = enc(x);
            let v = enc_value(&x.v);
            let tag = build(x);
            let (r, out) = with_writer(k, b.len(), |w| tag.serialize(w));
            ensure!(r.is_ok(), "{} to {}: {:?}", hex(&b), writer_name(k), r);
            ensure!(out == b, "{} is written as {} to {}", hex(&b), hex(&out), writer_name(k));
            let (r, out) = with_writer(k, b.len(), |w| tag.serialize(w.as_writer()));
            ensure!(r.is_ok() && out == b, "{} is written as {} to {} as writer: {:?}", hex(&b), hex(&out), writer_name(k), r);
            let (r, out) = with_writer(k, v.len(), |w| tag.serialize_value(w));
            ensure!(r.is_ok() && out == v, "value {} is written as {} to {}: {:?}", hex(&v), hex(&out), writer_name(k), r);
            // Two in a row.
            let (r, out) = with_writer(k, 2 * b.len(), |w| tag.serialize(w).and_then(|_| tag.serialize(w)));
            ensure!(r.is_ok() && out == [&b[..], &b[..]].concat(), "{} twice is written as {} to {}: {:?}", hex(&b), hex(&out), writer_name(k), r);
            match tag.to_bytes() {
                Ok(o) => ensure!(o == b, "to_bytes of {} gives {}", hex(&b), hex(&o)),
                Err(e) => return Err(format!("to_bytes of {}: {:?}", hex(&b), e)),
            }
            ch.ops(6);
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        let set = all.clone();
        spaces.push(space("faults", format!("{} documents, whole and value only: every write failing in {} ways, on writers taking bytes and slices", set.len(), N_FAULTS), move |ch| {
            let x = ch.pick(&set);
            let tag = build(x);
            if ch.flag() {
                all_faults(ch, tag.as_ref(), What::Value, &enc_value(&x.v), N_FAULTS)
            } else {
                all_faults(ch, tag.as_ref(), What::Tag, &enc(x), N_FAULTS)
            }
        }));
    }
    {
        let set = big.clone();
        let k = if th { N_FAULTS } else { 1 };
        spaces.push(space("faults_big", format!("{} documents of up to thousands of bytes: every write failing in {} ways", set.len(), k), move |ch| {
            let x = ch.pick(&set);
            all_faults(ch, build(x).as_ref(), What::Tag, &enc(x), k)
        }));
    }
    {
        let set: Arc<Vec<T>> = Arc::new(all.iter().chain(big.iter()).filter(|x| enc(x).len() < if th { 100000 } else { 1500 }).cloned().collect());
        spaces.push(space("capacity", format!("{} documents x every capacity from 0 to one more than needed, 3 kinds of fixed sink", set.len()), move |ch| {
            let x = ch.pick(&set);
            let b = enc(x);
            ch.visit(b.len() as u64);
            all_capacities(ch, build(x).as_ref(), &b)
        }));
    }
    {
        let set = all.clone();
        spaces.push(space("streams", format!("{} documents to std streams taking 1, 3 or all bytes a call: every call failing with {} kinds of error or taking nothing", set.len(), IO_KINDS.len()), move |ch| {
            let x = ch.pick(&set);
            let step = *ch.pick(&[0usize, 1, 3]);
            all_stream_faults(ch, build(x).as_ref(), &enc(x), step)
        }));
    }
    {
        let set = all.clone();
        let d = if th { 4 } else { 3 };
        spaces.push(
            space("chunking", format!("{} documents to plain and seekable streams: every placement of up to {} short or interrupted writes", set.len(), d), move |ch| {
                let x = ch.pick(&set);
                let b = enc(x);
                let tag = build(x);
                if ch.flag() {
                    let mut s = ChStream::new(Some(ch), &[]);
                    let r = tag.serialize(&mut s);
                    ensure!(r.is_ok(), "{}: {:?}", hex(&b), r);
                    ensure!(s.data == b, "{} is written as {} to a seekable stream", hex(&b), hex(&s.data));
                } else {
                    let mut s = ChWrite { ch, out: vec![] };
                    let r = tag.serialize(&mut WriteWriter::new(&mut s));
                    ensure!(r.is_ok(), "{}: {:?}", hex(&b), r);
                    ensure!(s.out == b, "{} is written as {} to a stream", hex(&b), hex(&s.out));
                }
                ch.op();
                Ok(())
            })
            .devs(d),
        );
    }
    {
        let set: Arc<Vec<T>> = Arc::new(kinds().into_iter().filter(|x| enc(x).len() <= 10).collect());
        let d = if th { 8 } else { 6 };
        spaces.push(
            space("chunking_deep", format!("{} short documents: every placement of up to {} short or interrupted writes", set.len(), d), move |ch| {
                let x = ch.pick(&set);
                let b = enc(x);
                let mut s = ChWrite { ch, out: vec![] };
                let r = build(x).serialize(&mut WriteWriter::new(&mut s));
                ensure!(r.is_ok(), "{}: {:?}", hex(&b), r);
                ensure!(s.out == b, "{} is written as {} to a stream", hex(&b), hex(&s.out));
                ch.op();
                Ok(())
            })
            .devs(d),
        );
    }
    {
        let set = big.clone();
        spaces.push(
            space("chunking_big", format!("{} large documents: every placement of one short or interrupted write", set.len()), move |ch| {
                let x = ch.pick(&set);
                let b = enc(x);
                let mut s = ChWrite { ch, out: vec![] };
                let r = build(x).serialize(&mut WriteWriter::new(&mut s));
                ensure!(r.is_ok(), "{}: {:?}", hex(&b), r);
                ensure!(s.out == b, "{} is written as {} to a stream", hex(&b), hex(&s.out));
                ch.op();
                Ok(())
            })
            .devs(if th { 2 } else { 1 }),
        );
    }
    {
        // Read-only vectors, and existing content beyond what is written.
        let set = all.clone();
        spaces.push(space("vectors", format!("{} documents into read-only vectors and over existing content at every offset", set.len()), move |ch| {
            let x = ch.pick(&set);
            let b = enc(x);
            let tag = build(x);
            let mut w = VecWriter::new();
            w.set_read_only(true);
            ensure!(tag.serialize(&mut w).is_err() && w.as_slice().is_empty(), "{} is written to a read-only vector", hex(&b));
            w.set_read_only(false);
            ensure!(tag.serialize(&mut w).is_ok() && w.as_slice() == &b[..], "{} after read-only is lifted gives {}", hex(&b), hex(w.as_slice()));
            for off in 0..=b.len() + 2 {
                let mut v = vec![0xEE; b.len() + 1];
                let o = off.min(v.len());
                let mut want = v[..o].to_vec();
                want.extend(&b);
                if want.len() < v.len() {
                    want.extend(&v[want.len()..]);
                }
                let n = {
                    let mut w = BorrowedVecWriter::with_offset(&mut v, off);
                    tag.serialize(&mut w).map_err(|e| format!("{:?}", e))?;
                    w.bytes_written()
                };
                ensure!(v == want && n == b.len(), "{} at offset {} of {} bytes gives {} ({} bytes written)", hex(&b), off, b.len() + 1, hex(&v), n);
                let mut v = vec![0xEE; 2];
                let mut w = BorrowedVecWriter::new(&mut v);
                w.set_read_only(true);
                ensure!(tag.serialize(&mut w).is_err() && w.as_slice() == [0xEE, 0xEE], "{} is written to a read-only vector", hex(&b));
                ch.ops(2);
            }
            Ok(())
        }));
    }
    {
        // An element that cannot be serialized, anywhere in a container.
        spaces.push(space("failing_element", "containers of up to 3 elements of 3 kinds (2 levels) with an element of up to 3 bytes that fails after every number of bytes", move |ch| {
            let len = ch.choose(4);
            let at = ch.choose(len + 1);
            let outer = ch.choose(3);
            let inner = ch.choose(4);
            let n = ch.range(1, 3);
            let pos = ch.choose(n);
            let mk = |kind: usize, kids: Vec<Tag>| -> Tag {
                match kind {
                    0 => {
                        let mut y = ILTagSeqTag::new();
                        *y.mut_value() = kids;
                        Box::new(y)
                    }
                    1 => {
                        let mut y = ILTagArrayTag::new();
                        *y.mut_value() = kids;
                        Box::new(y)
                    }
                    _ => {
                        let mut y = ILDictTag::new();
                        for (i, k) in kids.into_iter().enumerate() {
                            y.insert(["a", "b", "c"][i], k);
                        }
                        Box::new(y)
                    }
                }
            };
            let full: Vec<u8> = (0..len as u8).collect();
            let mut kids: Vec<Tag> = vec![];
            let mut model: Vec<T> = vec![];
            for i in 0..n {
                if i == pos {
                    let f: Tag = Box::new(Failing { len, at });
                    let m = raw(77, &full);
                    if inner < 3 {
                        kids.push(mk(inner, vec![f]));
                        model.push(wrap(inner, vec![m]));
                    } else {
                        kids.push(f);
                        model.push(m);
                    }
                } else {
                    kids.push(Box::new(ILUInt8Tag::with_value(i as u8)));
                    model.push(t(V::U8(i as u8)));
                }
            }
            let tag = mk(outer, kids);
            let want = match outer {
                0 => t(V::Seq(model)),
                1 => t(V::Arr(model)),
                _ => t(V::Dict(model.into_iter().enumerate().map(|(i, x)| (["a", "b", "c"][i].to_string(), x)).collect::<BTreeMap<_, _>>())),
            };
            // The inner dictionary of `wrap` may use its own key: compare only
            // what is common to both up to the failure.
            let b = enc(&want);
            let mut w = FaultWriter::new(usize::MAX, 0, true);
            let r = tag.serialize(&mut w);
            ensure!(r.is_err(), "a container with an element that fails to serialize is written as {}", hex(&w.out));
            ensure!(w.out.len() <= b.len(), "more was written than the whole: {}", hex(&w.out));
            if inner != 2 {
                prefix(&w.out, &b, &|| "an element failed".to_string())?;
            }
            ensure!(tag.to_bytes().is_err(), "to_bytes succeeds with an element that fails");
            ch.ops(2);
            ch.seen_bytes(&w.out);
            Ok(())
        }));
    }
    {
        let z = sizes(if th { 1 << 20 } else { 140_000 });
        spaces.push(space("sizes", format!("{} kinds of variable length x {} lengths and counts up to {}: {} kinds of writer; failures at the first and last writes and around every power of two; buffers of such capacities", N_SIZED, z.len(), z[z.len() - 1], N_WRITERS), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 7 && n > 20_000 {
                return Ok(());
            }
            let x = sized(kind, n);
            let tag = build(&x);
            let b = enc(&x);
            let what = format!("kind {} of size {}", kind, n);
            for k in 0..N_WRITERS {
                let (r, out) = with_writer(k, b.len(), |w| tag.serialize(w));
                ensure!(r.is_ok() && out == b, "{} to {}: {:?}, {} bytes of {}, equal {}", what, writer_name(k), r, out.len(), b.len(), out == b);
            }
            for bytewise in [false, true] {
                let mut w = FaultWriter::new(usize::MAX, 0, bytewise);
                tag.serialize(&mut w).map_err(|e| format!("{}: {:?}", what, e))?;
                for at in places(w.ops) {
                    let mut w = FaultWriter::new(at, 0, bytewise);
                    let r = tag.serialize(&mut w);
                    ensure!(r.is_err() && w.failed, "writing {} succeeds although write {} failed", what, at);
                    ensure!(w.after == 0, "writing {}: {} writes after the failure of write {}", what, w.after, at);
                    ensure!(b.starts_with(&w.out), "writing {}: what is written before the failure of write {} is no prefix", what, at);
                    ch.op();
                    ch.visit(1);
                }
            }
            for cap in places(b.len()) {
                let mut buf = vec![0xEE; cap];
                let (r, m) = {
                    let mut w = ByteArrayWriter::new(&mut buf);
                    (tag.serialize(&mut w), w.get_offset())
                };
                ensure!(r.is_err(), "{} ({} bytes) is written in {}", what, b.len(), cap);
                ensure!(m <= cap && b.starts_with(&buf[..m]), "{} in a buffer of {}: no prefix", what, cap);
                let mut s = &mut buf[..];
                ensure!(tag.serialize(&mut WriteWriter::new(&mut s)).is_err(), "{} ({} bytes) is written in a slice of {}", what, b.len(), cap);
                ch.ops(2);
                ch.visit(1);
            }
            ch.ops(N_WRITERS as u64);
            ch.seen((kind * 1_000_000 + n) as u64);
            Ok(())
        }));
    }
    {
        // The lower layers.
        type Op = fn(&mut dyn Writer) -> bool;
        let ops: Vec<(&'static str, Vec<u8>, Op)> = vec![
            ("write_u8", vec![0x81], |w| write_u8(0x81, w).is_ok()),
            ("write_i8", vec![0xFE], |w| write_i8(-2, w).is_ok()),
            ("write_u16", vec![1, 2], |w| write_u16(0x0102, w).is_ok()),
            ("write_i16", vec![0xFF, 0xFE], |w| write_i16(-2, w).is_ok()),
            ("write_u32", vec![1, 2, 3, 4], |w| write_u32(0x01020304, w).is_ok()),
            ("write_i32", vec![0xFF, 0xFF, 0xFF, 0xFD], |w| write_i32(-3, w).is_ok()),
            ("write_u64", vec![1, 2, 3, 4, 5, 6, 7, 8], |w| write_u64(0x0102030405060708, w).is_ok()),
            ("write_i64", vec![0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFC], |w| write_i64(-4, w).is_ok()),
            ("write_f32", vec![0x3F, 0x80, 0, 1], |w| write_f32(f32::from_bits(0x3F800001), w).is_ok()),
            ("write_f64", vec![0x3F, 0xF0, 0, 0, 0, 0, 0, 1], |w| write_f64(f64::from_bits(0x3FF0000000000001), w).is_ok()),
            ("write_ilint", vec![0xFF, 1, 2, 3, 4, 5, 6, 7, 8], |w| w.write_ilint(0x0102030405060708 + 248).is_ok()),
            ("write_signed_ilint", vec![0xF8, 1], |w| w.write_signed_ilint(unzigzag(249)).is_ok()),
            ("write_string", "h\u{e9}\u{1F600}".as_bytes().to_vec(), |w| write_string("h\u{e9}\u{1F600}", w).is_ok()),
            ("serialize_ilint", vec![0xF9, 1, 2], |w| w.serialize_ilint(0x0102 + 248).is_ok()),
            ("serialize_bytes", vec![9, 8, 7, 6, 5], |w| w.serialize_bytes(&[9, 8, 7, 6, 5]).is_ok()),
            ("serialize u32", vec![1, 2, 3, 4], |w| ValueSerializer::<u32>::serialize_value(w, 0x01020304).is_ok()),
            ("serialize i64", vec![1, 2, 3, 4, 5, 6, 7, 8], |w| ValueSerializer::<i64>::serialize_value(w, 0x0102030405060708).is_ok()),
            ("serialize text", b"abc".to_vec(), |w| ValueSerializer::<&str>::serialize_value(w, "abc").is_ok()),
            ("serialize_signed_ilint", vec![0xF8, 1], |w| w.serialize_signed_ilint(unzigzag(249)).is_ok()),
            ("sized write u16", vec![1, 2], |w| ValueWriter::<u16>::write_value(&mut FwdW(w), 0x0102).is_ok()),
            ("sized write f64", vec![0x3F, 0xF0, 0, 0, 0, 0, 0, 1], |w| ValueWriter::<f64>::write_value(&mut FwdW(w), f64::from_bits(0x3FF0000000000001)).is_ok()),
            ("dyn write i32", vec![0xFF, 0xFF, 0xFF, 0xFD], |w| ValueWriter::<i32>::write_value(w, -3).is_ok()),
            ("dyn write text", b"abc".to_vec(), |w| ValueWriter::<&str>::write_value(w, "abc").is_ok()),
            ("sized write text", b"abcd".to_vec(), |w| ValueWriter::<&str>::write_value(&mut FwdW(w), "abcd").is_ok()),
            ("sized write_ilint", vec![0xFF, 1, 2, 3, 4, 5, 6, 7, 8], |w| FwdW(w).write_ilint(0x0102030405060708 + 248).is_ok()),
            ("sized write_signed_ilint", vec![0xF8, 1], |w| FwdW(w).write_signed_ilint(unzigzag(249)).is_ok()),
            ("sized serialize_ilint", vec![0xF9, 1, 2], |w| FwdW(w).serialize_ilint(0x0102 + 248).is_ok()),
            ("sized serialize_signed_ilint", vec![0xF8, 1], |w| FwdW(w).serialize_signed_ilint(unzigzag(249)).is_ok()),
            ("sized serialize_bytes", vec![9, 8, 7, 6, 5], |w| FwdW(w).serialize_bytes(&[9, 8, 7, 6, 5]).is_ok()),
            #[allow(deprecated)]
            ("serialize_byte_vec", vec![9, 8, 7], |w| w.serialize_byte_vec(&vec![9, 8, 7]).is_ok()),
            ("sized serialize u32", vec![1, 2, 3, 4], |w| ValueSerializer::<u32>::serialize_value(&mut FwdW(w), 0x01020304).is_ok()),
            ("sized serialize text", b"abc".to_vec(), |w| ValueSerializer::<&str>::serialize_value(&mut FwdW(w), "abc").is_ok()),
            ("through ILIntWriter", vec![0xF9, 1, 2], |w| (&mut FwdW(w) as &mut dyn ILIntWriter).serialize_ilint(0x0102 + 248).is_ok()),
            ("through SignedILIntWriter", vec![0xF8, 1], |w| (&mut FwdW(w) as &mut dyn SignedILIntWriter).serialize_signed_ilint(unzigzag(249)).is_ok()),
            ("through ValueWriter", vec![1, 2, 3, 4], |w| (&mut FwdW(w) as &mut dyn ValueWriter<u32>).serialize_value(0x01020304).is_ok()),
            ("legacy serialize_ilint", vec![0xF8, 8], |w| il2_iltags::tags::serialize_ilint(256, w).is_ok()),
            ("legacy serialize_bytes", vec![1, 2, 3], |w| il2_iltags::tags::serialize_bytes(&[1, 2, 3], w).is_ok()),
        ];
        spaces.push(space("primitives", format!("{} writing operations: {} kinds of writer, every write failing, every capacity", ops.len(), N_WRITERS), move |ch| {
            let (name, b, op) = ch.pick(&ops);
            let op = *op;
            for k in 0..N_WRITERS {
                let (ok, out) = with_writer(k, b.len(), |w| op(w));
                ensure!(ok && &out == b, "{} to {}: {} {}", name, writer_name(k), ok, hex(&out));
            }
            for bytewise in [false, true] {
                let mut w = FaultWriter::new(usize::MAX, 0, bytewise);
                ensure!(op(&mut w), "{} fails", name);
                for at in 0..w.ops {
                    for kind in 0..N_FAULTS {
                        let mut w = FaultWriter::new(at, kind, bytewise);
                        ensure!(!op(&mut w), "{} succeeds although write {} failed", name, at);
                        ensure!(w.after == 0, "{} writes after a failure", name);
                        prefix(&w.out, b, &|| name.to_string())?;
                        ch.op();
                    }
                }
            }
            for cap in 0..=b.len() {
                let mut buf = vec![0xEE; cap];
                let (ok, n) = {
                    let mut w = ByteArrayWriter::new(&mut buf);
                    (op(&mut w), w.get_offset())
                };
                ensure!(ok == (cap == b.len()), "{} in {} bytes: {}", name, cap, ok);
                prefix(&buf[..n], b, &|| name.to_string())?;
                ensure!(buf[n..].iter().all(|x| *x == 0xEE), "{} in {} bytes writes beyond its offset", name, cap);
                ch.op();
            }
            Ok(())
        }));
    }
    {
        // The lower layers on long values.
        type Op = fn(&mut dyn Writer, &[u8]) -> bool;
        let ops: Vec<(&'static str, Op)> = vec![
            ("write_all", |w, b| w.write_all(b).is_ok()),
            ("sized write_all", |w, b| FwdW(w).write_all(b).is_ok()),
            ("write_string", |w, b| write_string(std::str::from_utf8(b).unwrap(), w).is_ok()),
            ("dyn write text", |w, b| ValueWriter::<&str>::write_value(w, std::str::from_utf8(b).unwrap()).is_ok()),
            ("sized write text", |w, b| ValueWriter::<&str>::write_value(&mut FwdW(w), std::str::from_utf8(b).unwrap()).is_ok()),
            ("serialize text", |w, b| ValueSerializer::<&str>::serialize_value(w, std::str::from_utf8(b).unwrap()).is_ok()),
            ("sized serialize text", |w, b| ValueSerializer::<&str>::serialize_value(&mut FwdW(w), std::str::from_utf8(b).unwrap()).is_ok()),
            ("serialize_bytes", |w, b| w.serialize_bytes(b).is_ok()),
            ("sized serialize_bytes", |w, b| FwdW(w).serialize_bytes(b).is_ok()),
            #[allow(deprecated)]
            ("serialize_byte_vec", |w, b| w.serialize_byte_vec(&b.to_vec()).is_ok()),
            ("legacy serialize_bytes", |w, b| il2_iltags::tags::serialize_bytes(b, w).is_ok()),
        ];
        let z = sizes(if th { 140_000 } else { 20_000 });
        spaces.push(space("long_primitives", format!("{} writing operations x {} lengths up to {}: {} kinds of writer; failures at the first and last writes and around every power of two; buffers of such capacities", ops.len(), z.len(), z[z.len() - 1], N_WRITERS), move |ch| {
            let (name, op) = ch.pick(&ops);
            let op = *op;
            let n = *ch.pick(&z);
            let b: Vec<u8> = fill(n, n as u64).iter().map(|x| x & 0x7F).collect();
            for k in 0..N_WRITERS {
                let (ok, out) = with_writer(k, n, |w| op(w, &b));
                ensure!(ok && out == b, "{} of {} bytes to {}: {}, {} bytes written, equal {}", name, n, writer_name(k), ok, out.len(), out == b);
            }
            for bytewise in [false, true] {
                let mut w = FaultWriter::new(usize::MAX, 0, bytewise);
                ensure!(op(&mut w, &b), "{} of {} bytes fails", name, n);
                for at in places(w.ops) {
                    let mut w = FaultWriter::new(at, 0, bytewise);
                    ensure!(!op(&mut w, &b), "{} of {} bytes succeeds although write {} failed", name, n, at);
                    ensure!(w.after == 0, "{} of {} bytes writes after a failure", name, n);
                    ensure!(b.starts_with(&w.out), "{} of {} bytes: what is written is no prefix", name, n);
                    ch.op();
                }
            }
            for cap in places(n) {
                let mut buf = vec![0xEE; cap];
                let (ok, m) = {
                    let mut w = ByteArrayWriter::new(&mut buf);
                    (op(&mut w, &b), w.get_offset())
                };
                ensure!(!ok && m <= cap && b.starts_with(&buf[..m]), "{} of {} bytes in {}: {}, {} written", name, n, cap, ok, m);
                let mut s = &mut buf[..];
                ensure!(!op(&mut WriteWriter::new(&mut s), &b), "{} of {} bytes is written in a slice of {}", name, n, cap);
                ch.ops(2);
            }
            ch.seen(n as u64);
            Ok(())
        }));
    }
    {
        let (budget, depth) = if th { (6, 4) } else { (5, 4) };
        let leaves = Arc::new(vec![t(V::U8(1)), t(s("a")), raw(40, &[1]), dict(&[("k", t(V::Null)), ("", t(V::Bool(true)))]), sdict(&[("x", "y")])]);
        spaces.push(space("trees", format!("every tree of up to {} tags and depth {} over {} leaves: every write failing, every capacity", budget, depth, leaves.len()), move |ch| {
            let mut left = budget;
            let x = tree(ch, &mut left, depth, &leaves);
            let tag = build(&x);
            let b = enc(&x);
            all_faults(ch, tag.as_ref(), What::Tag, &b, 1)?;
            all_capacities(ch, tag.as_ref(), &b)?;
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    Prop { id: "C18", spaces, assumptions: vec![] }
}
