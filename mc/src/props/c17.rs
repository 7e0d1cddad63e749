//! C17: a read failure at any point surfaces as an error.
use super::dec::*;
use super::docs::*;
use super::prims::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::data::*;
use il2_iltags::io::{LimitedReader, ReadReader, Reader};
use il2_iltags::tags::raw::RawTagScanner;
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::*;
use std::collections::BTreeMap;
use std::sync::Arc;

/// The failure of a decode must be the injected one.
fn that(e: &ErrorKind, kind: usize, n: u64) -> bool {
    match e {
        ErrorKind::IOError(x) => is_fault(x, kind, n),
        _ => false,
    }
}

/// A value of the same kind holding something else, as target of a decode.
fn other_value(x: &T) -> Tag {
    for k in kinds() {
        if std::mem::discriminant(&k.v) == std::mem::discriminant(&x.v) {
            let mut k = k;
            k.id = x.id;
            if matches!(k.v, V::Bytes(_) | V::BigInt(_)) && k.id != std_id(&k.v) {
                break;
            }
            return build(&k);
        }
    }
    empty_like(x)
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Fresh,
    Strict,
    Into,
    Limited,
    Value,
}
const HOWS: [(How, &str); 5] = [
    (How::Fresh, "deserialize"),
    (How::Strict, "deserialize (strict)"),
    (How::Into, "deserialize_into"),
    (How::Limited, "deserialize through a limited reader"),
    (How::Value, "deserialize_value of the tag itself"),
];

/// Runs one decode; tells whether it succeeded.
fn attempt(f: &Fs, how: How, x: &T, len: usize, r: &mut dyn Reader) -> std::result::Result<(), ErrorKind> {
    match how {
        How::Fresh => f.lax.deserialize(r).map(|_| ()),
        How::Strict => f.strict.deserialize(r).map(|_| ()),
        How::Into => f.lax.deserialize_into(r, other_value(x).as_mut()),
        How::Limited => f.lax.deserialize(&mut LimitedReader::new(r, len)).map(|_| ()),
        How::Value => {
            let mut tag = other_value(x);
            tag.deserialize_value(&f.lax, len, r)
        }
    }
}
/// The bytes to give to this way of decoding.
fn input(how: How, x: &T) -> Vec<u8> {
    if how == How::Value {
        enc_value(&x.v)
    } else {
        enc(x)
    }
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = own_fs();
    let mut spaces = vec![];
    spaces.push(super::huge::reading(tier, "faults"));
    let all: Arc<Vec<T>> = Arc::new({
        let mut v = docs();
        v.extend(own_docs());
        v.extend(extremes().into_iter().filter(|x| enc(x).len() < 60));
        v
    });
    let big: Arc<Vec<T>> = Arc::new({
        let mut v = big_docs();
        v.extend(extremes().into_iter().filter(|x| enc(x).len() >= 60));
        v.push(t(V::Bytes(crate::alpha::fill(5000, 3))));
        v.push(t(V::Seq(vec![raw(400, &crate::alpha::fill(1500, 5)), t(V::U8(1))])));
        v
    });
    for (name, set, styles, kinds_n) in [("faults", all.clone(), 3usize, N_FAULTS), ("faults_big", big.clone(), if th { 3 } else { 2 }, if th { N_FAULTS } else { 2 })] {
        let f = f.clone();
        let n = set.len();
        spaces.push(space(name, format!("{} documents x 5 ways of decoding x {} reader styles x {} kinds of failure, at every read", n, styles, kinds_n), move |ch| {
            let x = ch.pick(&set);
            let (how, hn) = *ch.pick(&HOWS);
            let style = if styles == 2 { ch.choose(2) * 2 } else { ch.choose(styles) };
            let b = input(how, x);
            if how == How::Strict && dec_with(&b, true, true).is_err() {
                return Ok(());
            }
            // Without a failure it works, and tells how many reads there are.
            let mut r = FaultReader::new(&b, usize::MAX, 0, style);
            if let Err(e) = attempt(&f, how, x, b.len(), &mut r) {
                return Err(format!("{} of {} fails without a failure of its source: {:?}", hn, hex(&b), e));
            }
            let ops = r.ops;
            if ops == 0 {
                return Ok(());
            }
            ch.visit((ops * kinds_n) as u64 - 1);
            for at in 0..ops {
                for kind in 0..kinds_n {
                    let mut r = FaultReader::new(&b, at, kind, style);
                    let got = attempt(&f, how, x, b.len(), &mut r);
                    ensure!(r.failed, "harness: the failure was not reached");
                    match got {
                        Ok(()) => return Err(format!("{} of {} succeeds although read {} of {} failed", hn, hex(&b), at, ops)),
                        Err(e) => ensure!(that(&e, kind, at as u64), "{} of {}: read {} failed with {:?}, reported as {:?}", hn, hex(&b), at, fault(kind, at as u64), e),
                    }
                    ensure!(r.after == 0, "{} of {}: {} reads after the failure of read {}", hn, hex(&b), r.after, at);
                    ch.op();
                }
            }
            ch.seen(ops as u64);
            Ok(())
        }));
    }
    {
        // Random access to every truncation, from every reader.
        let f = f.clone();
        let mut set: Vec<Vec<u8>> = all.iter().chain(big_docs().iter()).map(enc).collect();
        set.extend(wide_docs().iter().map(enc));
        spaces.push(space("truncation", format!("{} documents cut at every byte x {} kinds of reader x 2 modes, fresh and into an existing tag", set.len(), N_READERS), move |ch| {
            let b = ch.pick(&set);
            let k = ch.choose(N_READERS);
            let (x, _) = dec_with(b, false, true).map_err(|_| "harness: document")?;
            for at in 0..b.len() {
                let c = &b[..at];
                for (fac, mode) in [(&f.lax, "non-strict"), (&f.strict, "strict")] {
                    let (r, _) = with_reader(k, c, |r| fac.deserialize(r));
                    if let Ok(g) = r {
                        return Err(format!("{} cut to {} bytes decodes as {:?} ({}) from {}", hex(b), at, extract(g.as_ref()), mode, reader_name(k)));
                    }
                }
                let mut tag = other_value(&x);
                let (r, _) = with_reader(k, c, |r| f.lax.deserialize_into(r, tag.as_mut()));
                ensure!(r.is_err(), "{} cut to {} bytes decodes into an existing tag from {}", hex(b), at, reader_name(k));
                ch.ops(3);
            }
            if !b.is_empty() {
                ch.visit(b.len() as u64 - 1);
            }
            ch.seen_bytes(b);
            Ok(())
        }));
    }
    {
        // Large documents: failures and ends at the places that stand for all.
        let f = f.clone();
        let z = sizes(if th { 300_000 } else { 70_000 });
        spaces.push(space("sizes", format!("{} kinds of variable length x {} lengths and counts up to {}: failures at the first and last reads and around every power of two, {} reader styles, 4 ways of decoding; the data ending at such places, {} kinds of reader", N_SIZED, z.len(), z[z.len() - 1], 3, N_READERS), move |ch| {
            let kind = ch.choose(N_SIZED);
            let n = *ch.pick(&z);
            if kind >= 7 && n > 5000 {
                return Ok(());
            }
            let x = sized(kind, n);
            let b = enc(&x);
            let what = format!("kind {} of size {}", kind, n);
            for style in 0..3 {
                for (how, hn) in [HOWS[0], HOWS[2], HOWS[3], HOWS[4]] {
                    if b.len() > 20_000 && style == 0 && how != How::Fresh {
                        continue;
                    }
                    let b = input(how, &x);
                    let mut r = FaultReader::new(&b, usize::MAX, 0, style);
                    attempt(&f, how, &x, b.len(), &mut r).map_err(|e| format!("{} of {} fails without a failure of its source: {:?}", hn, what, e))?;
                    let ops = r.ops;
                    for at in places(ops) {
                        let kind = [0, 1, 4][at % 3];
                        let mut r = FaultReader::new(&b, at, kind, style);
                        let got = attempt(&f, how, &x, b.len(), &mut r);
                        ensure!(r.failed, "harness: the failure was not reached");
                        match got {
                            Ok(()) => return Err(format!("{} of {} succeeds although read {} of {} failed", hn, what, at, ops)),
                            Err(e) => ensure!(that(&e, kind, at as u64), "{} of {}: read {} failed with {:?}, reported as {:?}", hn, what, at, fault(kind, at as u64), e),
                        }
                        ensure!(r.after == 0, "{} of {}: {} reads after the failure of read {}", hn, what, r.after, at);
                        ch.op();
                        ch.visit(1);
                    }
                }
            }
            for at in places(b.len()) {
                for k in 0..N_READERS {
                    if b.len() > 20_000 && (k == 5 || k == 6) && at > 20_000 {
                        continue;
                    }
                    let (r, _) = with_reader(k, &b[..at], |r| f.lax.deserialize(r).is_ok());
                    ensure!(!r, "{} ({} bytes) cut to {} decodes from {}", what, b.len(), at, reader_name(k));
                }
                let mut tag = other_value(&x);
                ensure!(f.lax.deserialize_into(&mut il2_iltags::io::array::ByteArrayReader::new(&b[..at]), tag.as_mut()).is_err(), "{} ({} bytes) cut to {} decodes into an existing tag", what, b.len(), at);
                ch.ops(N_READERS as u64 + 1);
                ch.visit(1);
            }
            ch.seen((kind * 1_000_000 + n) as u64);
            Ok(())
        }));
    }
    {
        // Std streams behind ReadReader: the very error must come back.
        let f = f.clone();
        let set = all.clone();
        spaces.push(space("streams", format!("{} documents from std streams giving 1, 3 or all bytes a call, failing at every call with {} kinds of error", set.len(), IO_KINDS.len()), move |ch| {
            let x = ch.pick(&set);
            let step = *ch.pick(&[0usize, 1, 3]);
            let b = enc(x);
            let mut s = FaultRead::new(&b, usize::MAX, std::io::ErrorKind::Other, step);
            f.lax.deserialize(&mut ReadReader::new(&mut s)).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
            let calls = s.calls;
            for at in 0..calls {
                for kind in IO_KINDS {
                    let mut s = FaultRead::new(&b, at, kind, step);
                    let r = f.lax.deserialize(&mut ReadReader::new(&mut s));
                    match r {
                        Ok(_) => return Err(format!("{}: decodes although call {} of its stream failed", hex(&b), at)),
                        Err(ErrorKind::IOError(e)) if is_std_fault(&e, kind, at as u64) => {}
                        Err(e) => return Err(format!("{}: stream error {:?} at call {} is reported as {:?}", hex(&b), kind, at, e)),
                    }
                    ensure!(s.after == 0, "{}: the stream is read after its failure at call {}", hex(&b), at);
                    let mut s = FaultRead::new(&b, at, kind, step);
                    let mut tag = other_value(x);
                    match f.lax.deserialize_into(&mut ReadReader::new(&mut s), tag.as_mut()) {
                        Err(ErrorKind::IOError(e)) if is_std_fault(&e, kind, at as u64) => {}
                        r => return Err(format!("{} into an existing tag: stream error {:?} at call {} is reported as {:?}", hex(&b), kind, at, r)),
                    }
                    ch.ops(2);
                }
            }
            ch.visit((calls * IO_KINDS.len()) as u64 - 1);
            Ok(())
        }));
    }
    {
        // Seekable streams that fail: an error, whatever its class.
        struct FaultSeek<'a>(FaultRead<'a>);
        impl<'a> std::io::Read for FaultSeek<'a> {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                self.0.read(b)
            }
        }
        impl<'a> std::io::Seek for FaultSeek<'a> {
            fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
                use std::io::SeekFrom::*;
                let n = match s {
                    Start(x) => x as i64,
                    Current(d) => self.0.p as i64 + d,
                    End(d) => self.0.b.len() as i64 + d,
                };
                self.0.p = n.clamp(0, self.0.b.len() as i64) as usize;
                Ok(n as u64)
            }
        }
        let f = f.clone();
        let set = all.clone();
        spaces.push(space("seekable", format!("{} documents from seekable streams giving 1, 3 or all bytes a call, failing at every call", set.len()), move |ch| {
            let x = ch.pick(&set);
            let step = *ch.pick(&[0usize, 1, 3]);
            let b = enc(x);
            let mut s = FaultSeek(FaultRead::new(&b, usize::MAX, std::io::ErrorKind::Other, step));
            f.lax.deserialize(&mut s).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
            let calls = s.0.calls;
            for at in 0..calls {
                for kind in IO_KINDS {
                    let mut s = FaultSeek(FaultRead::new(&b, at, kind, step));
                    match f.lax.deserialize(&mut s) {
                        Ok(_) => return Err(format!("{}: decodes although call {} of its stream failed", hex(&b), at)),
                        Err(ErrorKind::IOError(_)) => {}
                        Err(e) => return Err(format!("{}: stream error {:?} at call {} is reported as {:?}", hex(&b), kind, at, e)),
                    }
                    ensure!(s.0.after == 0, "{}: the stream is read after its failure at call {}", hex(&b), at);
                    ch.op();
                }
            }
            ch.visit((calls * IO_KINDS.len()) as u64 - 1);
            Ok(())
        }));
    }
    {
        // Non-canonical and damaged documents: whatever they decode to, a failure
        // of the source during the decode is what is reported.
        let f = f.clone();
        let ds: Vec<Vec<u8>> = docs().iter().chain(own_docs().iter()).map(enc).filter(|b| b.len() <= if th { 64 } else { 32 }).collect();
        spaces.push(space("damaged", format!("every single-place change of {} documents, failing at every read it makes", ds.len()), move |ch| {
            let b = ch.pick(&ds);
            mutate(ch, b, &mut |b| {
                if heavy(b, HEAVY) {
                    return Ok(());
                }
                let mut r = FaultReader::new(b, usize::MAX, 0, 2);
                let _ = f.lax.deserialize(&mut r);
                for at in 0..r.ops {
                    let kind = at % N_FAULTS;
                    let mut r = FaultReader::new(b, at, kind, 2);
                    match f.lax.deserialize(&mut r) {
                        Ok(_) => return Err(format!("{} decodes although read {} failed", hex(b), at)),
                        Err(e) => ensure!(that(&e, kind, at as u64), "{}: read {} failed with {:?}, reported as {:?}", hex(b), at, fault(kind, at as u64), e),
                    }
                    ensure!(r.after == 0, "{}: {} reads after the failure of read {}", hex(b), r.after, at);
                    ch.op();
                }
                Ok(())
            })
        }));
    }
    {
        // The lower layers.
        type Op = fn(&mut dyn Reader) -> std::result::Result<(), Option<il2_iltags::io::ErrorKind>>;
        fn io<X>(r: il2_iltags::io::Result<X>) -> std::result::Result<(), Option<il2_iltags::io::ErrorKind>> {
            r.map(|_| ()).map_err(Some)
        }
        fn tg<X>(r: il2_iltags::tags::Result<X>) -> std::result::Result<(), Option<il2_iltags::io::ErrorKind>> {
            match r {
                Ok(_) => Ok(()),
                Err(ErrorKind::IOError(e)) => Err(Some(e)),
                Err(_) => Err(None),
            }
        }
        let ops: Vec<(&'static str, Op)> = vec![
            ("read_u8", |r| io(read_u8(r))),
            ("read_i8", |r| io(read_i8(r))),
            ("read_u16", |r| io(read_u16(r))),
            ("read_i16", |r| io(read_i16(r))),
            ("read_u32", |r| io(read_u32(r))),
            ("read_i32", |r| io(read_i32(r))),
            ("read_u64", |r| io(read_u64(r))),
            ("read_i64", |r| io(read_i64(r))),
            ("read_f32", |r| io(read_f32(r))),
            ("read_f64", |r| io(read_f64(r))),
            ("read_ilint", |r| io(r.read_ilint())),
            ("read_signed_ilint", |r| io(r.read_signed_ilint())),
            ("read_string", |r| io(r.read_string(7))),
            ("io skip", |r| io(r.skip(9))),
            ("io skip_u64", |r| io(r.skip_u64(9))),
            ("deserialize_ilint", |r| tg(r.deserialize_ilint())),
            ("deserialize_string", |r| tg(r.deserialize_string(5))),
            ("deserialize_bytes", |r| tg(r.deserialize_bytes(6))),
            ("deserialize_bytes_into_vec", |r| tg(r.deserialize_bytes_into_vec(6, &mut vec![9; 2]))),
            ("deserialize_bytes_into_slice", |r| tg(r.deserialize_bytes_into_slice(&mut [0; 5]))),
            ("deserialize u8", |r| tg(ValueDeserializer::<u8>::deserialize_value(r))),
            ("deserialize i16", |r| tg(ValueDeserializer::<i16>::deserialize_value(r))),
            ("deserialize u32", |r| tg(ValueDeserializer::<u32>::deserialize_value(r))),
            ("deserialize f64", |r| tg(ValueDeserializer::<f64>::deserialize_value(r))),
            ("deserialize_signed_ilint", |r| tg(r.deserialize_signed_ilint())),
            ("sized read_ilint", |r| io(Fwd(r).read_ilint())),
            ("sized read_signed_ilint", |r| io(Fwd(r).read_signed_ilint())),
            ("sized read_string", |r| io(Fwd(r).read_string(7))),
            ("sized read u16", |r| io(ValueReader::<u16>::read_value(&mut Fwd(r)))),
            ("sized read i64", |r| io(ValueReader::<i64>::read_value(&mut Fwd(r)))),
            ("dyn read u32", |r| io(ValueReader::<u32>::read_value(r))),
            ("sized deserialize_ilint", |r| tg(Fwd(r).deserialize_ilint())),
            ("sized deserialize_signed_ilint", |r| tg(Fwd(r).deserialize_signed_ilint())),
            ("sized deserialize_string", |r| tg(Fwd(r).deserialize_string(5))),
            ("sized deserialize_bytes", |r| tg(Fwd(r).deserialize_bytes(6))),
            ("sized deserialize_bytes_into_vec", |r| tg(Fwd(r).deserialize_bytes_into_vec(6, &mut vec![9; 2]))),
            ("sized deserialize_bytes_into_slice", |r| tg(Fwd(r).deserialize_bytes_into_slice(&mut [0; 5]))),
            ("sized deserialize f32", |r| tg(ValueDeserializer::<f32>::deserialize_value(&mut Fwd(r)))),
            ("through ILIntReader", |r| tg((&mut Fwd(r) as &mut dyn ILIntReader).deserialize_ilint())),
            ("through SignedILIntReader", |r| tg((&mut Fwd(r) as &mut dyn SignedILIntReader).deserialize_signed_ilint())),
            ("through a reader of string", |r| tg((&mut Fwd(r) as &mut dyn StringValueReader).deserialize_string(4))),
            ("through ValueReader", |r| tg((&mut Fwd(r) as &mut dyn ValueReader<u64>).deserialize_value())),
            ("legacy deserialize_ilint", |r| tg(il2_iltags::tags::deserialize_ilint(r))),
            ("legacy deserialize_bytes", |r| tg(il2_iltags::tags::deserialize_bytes(4, r))),
            ("legacy deserialize_bytes_into_vec", |r| tg(il2_iltags::tags::deserialize_bytes_into_vec(4, r, &mut vec![]))),
        ];
        let firsts = [0xFFu8, 0xFB, 0xF8, 0x41];
        spaces.push(space("primitives", format!("{} reading operations x 4 headers x 3 reader styles x {} kinds of failure at every read, plain and limited, and cut at every byte", ops.len(), N_FAULTS), move |ch| {
            let (name, op) = *ch.pick(&ops);
            let style = ch.choose(3);
            let h = *ch.pick(&firsts);
            let limited = ch.flag();
            let mut b = vec![h];
            b.extend([0x10, 0x21, 0x32, 0x43, 0x54, 0x65, 0x76, 0x17, 0x08]);
            if name.ends_with("string") && h > 0x7F {
                return Ok(());
            }
            let run = |r: &mut dyn Reader| if limited { op(&mut LimitedReader::new(r, 10)) } else { op(r) };
            let mut r = FaultReader::new(&b, usize::MAX, 0, style);
            run(&mut r).map_err(|e| format!("{}: {:?}", name, e))?;
            let (n, used) = (r.ops, r.p);
            for at in 0..n {
                for kind in 0..N_FAULTS {
                    let mut r = FaultReader::new(&b, at, kind, style);
                    match run(&mut r) {
                        Ok(()) => return Err(format!("{} succeeds although read {} failed", name, at)),
                        Err(Some(e)) => ensure!(is_fault(&e, kind, at as u64), "{}: failure {:?} is reported as {:?}", name, fault(kind, at as u64), e),
                        Err(None) => return Err(format!("{}: failure {:?} is not reported as an I/O error", name, fault(kind, at as u64))),
                    }
                    ensure!(r.after == 0, "{}: reads after the failure", name);
                    ch.op();
                }
            }
            for cut in 0..used {
                for k in 0..N_READERS {
                    let (r, _) = with_reader(k, &b[..cut], |r| run(r));
                    ensure!(r.is_err(), "{} succeeds on {} of {} bytes from {}", name, cut, used, reader_name(k));
                    ch.op();
                }
            }
            ch.seen(n as u64 * 100 + used as u64);
            Ok(())
        }));
    }
    {
        // The scanner of raw tags.
        let set = all.clone();
        spaces.push(space("scanner", format!("scanning {} documents, failing at every read x {} kinds of failure x 3 reader styles", set.len(), N_FAULTS), move |ch| {
            let x = ch.pick(&set);
            let style = ch.choose(3);
            let b = [enc(x), vec![3, 7]].concat();
            fn scan(r: &mut FaultReader) -> std::result::Result<usize, ErrorKind> {
                let mut s = RawTagScanner::new(r);
                let mut n = 0;
                for _ in 0..2 {
                    if s.next_tag()?.is_some() {
                        n += 1;
                    }
                }
                Ok(n)
            }
            let mut r = FaultReader::new(&b, usize::MAX, 0, style);
            match scan(&mut r) {
                Ok(2) => {}
                g => return Err(format!("scanning {} gives {:?}", hex(&b), g)),
            }
            for at in 0..r.ops {
                for kind in 0..N_FAULTS {
                    let mut r = FaultReader::new(&b, at, kind, style);
                    match scan(&mut r) {
                        Ok(n) => return Err(format!("scanning {} gives {} tags although read {} failed", hex(&b), n, at)),
                        Err(e) => ensure!(that(&e, kind, at as u64), "scanning {}: read {} failed with {:?}, reported as {:?}", hex(&b), at, fault(kind, at as u64), e),
                    }
                    ensure!(r.after == 0, "scanning {}: reads after the failure", hex(&b));
                    ch.op();
                }
            }
            Ok(())
        }));
    }
    {
        // Trees: every shape of nested containers.
        let f = f.clone();
        let (budget, depth) = if th { (6, 4) } else { (5, 4) };
        let leaves = Arc::new(vec![t(V::U8(1)), t(s("a")), raw(40, &[1]), dict(&[("k", t(V::Null))]), t(V::Dict(BTreeMap::new()))]);
        spaces.push(space("trees", format!("every tree of up to {} tags and depth {} over {} leaves, failing at every read", budget, depth, leaves.len()), move |ch| {
            let mut left = budget;
            let x = tree(ch, &mut left, depth, &leaves);
            let b = enc(&x);
            let mut r = FaultReader::new(&b, usize::MAX, 0, 1);
            f.lax.deserialize(&mut r).map_err(|e| format!("{}: {:?}", hex(&b), e))?;
            for at in 0..r.ops {
                let kind = [0, 1, 4][at % 3];
                let mut r = FaultReader::new(&b, at, kind, 1);
                match f.lax.deserialize(&mut r) {
                    Ok(_) => return Err(format!("{} decodes although read {} failed", hex(&b), at)),
                    Err(e) => ensure!(that(&e, kind, at as u64), "{}: read {} failed with {:?}, reported as {:?}", hex(&b), at, fault(kind, at as u64), e),
                }
                ensure!(r.after == 0, "{}: reads after the failure of read {}", hex(&b), at);
                ch.op();
            }
            for at in 0..b.len() {
                ensure!(f.lax.from_bytes(&b[..at]).is_err(), "{} cut to {} bytes decodes", hex(&b), at);
                ch.op();
            }
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        let ops = long_ops();
        let z = sizes(if th { 70_000 } else { 10_000 });
        spaces.push(space("long_primitives", format!("{} reading operations x {} lengths up to {} x 3 reader styles, plain and limited: failures at the first and last reads and around every power of two, data ending at such places on {} readers", ops.len(), z.len(), z[z.len() - 1], N_READERS), move |ch| {
            let (name, _, op) = *ch.pick(&ops);
            let n = *ch.pick(&z);
            let style = ch.choose(3);
            let limited = ch.flag();
            let b = long_data(n, 0);
            let run = |r: &mut dyn Reader| if limited { op(&mut LimitedReader::new(r, n), n) } else { op(r, n) };
            let mut r = FaultReader::new(&b, usize::MAX, 0, style);
            run(&mut r).map_err(|e| format!("{} of {}: {:?}", name, n, e))?;
            for at in places(r.ops) {
                let kind = at % N_FAULTS;
                let mut r = FaultReader::new(&b, at, kind, style);
                match run(&mut r) {
                    Ok(_) => return Err(format!("{} of {} succeeds although read {} failed", name, n, at)),
                    Err(Some(e)) => ensure!(is_fault(&e, kind, at as u64), "{} of {}: failure {:?} is reported as {:?}", name, n, fault(kind, at as u64), e),
                    Err(None) => return Err(format!("{} of {}: failure {:?} is not reported as an I/O error", name, n, fault(kind, at as u64))),
                }
                ensure!(r.after == 0, "{} of {}: reads after the failure", name, n);
                ch.op();
            }
            if style == 0 {
                for cut in places(n) {
                    for k in 0..N_READERS {
                        let (r, _) = with_reader(k, &b[..cut], |r| run(r));
                        ensure!(r.is_err(), "{} of {} succeeds on {} bytes from {}", name, n, cut, reader_name(k));
                        ch.op();
                    }
                }
            }
            ch.seen(n as u64);
            Ok(())
        }));
    }
    Prop { id: "C17", spaces, assumptions: vec![] }
}
