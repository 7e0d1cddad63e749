//! C27: custom payload tags behave exactly like built-in tags.
use super::docs::*;
use crate::alpha::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::cell::RefCell;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Read,
    All(usize),
    Skip(usize),
    Skip64(u64),
    /// Read everything that was announced.
    Rest,
    /// Decode one tag with the factory that was given.
    Tag,
}
impl Step {
    fn len(&self) -> u64 {
        match self {
            Step::Read => 1,
            Step::All(n) | Step::Skip(n) => *n as u64,
            Step::Skip64(n) => *n,
            _ => 0,
        }
    }
}
#[derive(Clone, Debug, Default)]
struct Plan {
    steps: Vec<Step>,
    /// Go on after a refused read.
    stubborn: bool,
    /// Fail with this error after the steps.
    fail: Option<usize>,
}
#[derive(Clone, Debug, PartialEq)]
enum Saw {
    Size(usize),
    /// Bytes obtained by a step, or refused.
    Got(Option<Vec<u8>>),
    Inner(T),
    NoInner,
}
thread_local! {
    static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
    static LOG: RefCell<Vec<Saw>> = const { RefCell::new(Vec::new()) };
}
const N_ERRS: usize = 7 + N_FAULTS;
fn err(k: usize) -> ErrorKind {
    match k {
        0 => ErrorKind::UnknownTag,
        1 => ErrorKind::UnsupportedTag,
        2 => ErrorKind::CorruptedData,
        3 => ErrorKind::TagTooLarge,
        4 => ErrorKind::UnexpectedTagType,
        5 => ErrorKind::UnableToSerialize,
        6 => ErrorKind::Boxed(Box::new(Injected(k as u64))),
        k => ErrorKind::IOError(fault(k - 7, 3)),
    }
}
fn is_err(e: &ErrorKind, k: usize) -> bool {
    match (k, e) {
        (0, ErrorKind::UnknownTag) | (1, ErrorKind::UnsupportedTag) | (2, ErrorKind::CorruptedData) | (3, ErrorKind::TagTooLarge) | (4, ErrorKind::UnexpectedTagType) | (5, ErrorKind::UnableToSerialize) => true,
        (6, ErrorKind::Boxed(b)) => b.downcast_ref::<Injected>().map(|i| i.0) == Some(6),
        (k, ErrorKind::IOError(e)) if k >= 7 => is_fault(e, k - 7, 3),
        _ => false,
    }
}
/// A payload that does what the plan of its thread says.
struct P {
    data: Vec<u8>,
    /// Announced size, if not that of the data.
    says: Option<usize>,
    fail_write: Option<usize>,
}
impl Default for P {
    fn default() -> P {
        P { data: vec![0xD0], says: None, fail_write: None }
    }
}
impl ILTagPayload for P {
    fn serialized_size(&self) -> usize {
        self.says.unwrap_or(self.data.len())
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        for (i, b) in self.data.chunks(2).enumerate() {
            if self.fail_write == Some(i) {
                return Err(err(i % N_ERRS));
            }
            w.write_all(b)?;
        }
        if let Some(n) = self.fail_write {
            if n >= self.data.chunks(2).count() {
                return Err(err(n % N_ERRS));
            }
        }
        Ok(())
    }
    fn deserialize(&mut self, f: &dyn ILTagFactory, size: usize, r: &mut dyn Reader) -> Result<()> {
        let plan = PLAN.with(|p| p.borrow().clone());
        let log = |s: Saw| LOG.with(|l| l.borrow_mut().push(s));
        log(Saw::Size(size));
        self.data.clear();
        self.says = None;
        for s in &plan.steps {
            let mut buf = match s {
                Step::Read => vec![0],
                // No buffer of an absurd size is ever asked for.
                Step::All(n) => vec![0; (*n).min(1 << 12)],
                Step::Rest => vec![0; size],
                _ => vec![],
            };
            let res: Result<()> = match s {
                Step::Read => r.read().map(|x| buf[0] = x).map_err(|e| e.into()),
                Step::All(_) | Step::Rest => r.read_all(&mut buf).map_err(|e| e.into()),
                Step::Skip(n) => r.skip(*n).map_err(|e| e.into()),
                Step::Skip64(n) => r.skip_u64(*n).map_err(|e| e.into()),
                Step::Tag => match f.deserialize(r) {
                    Ok(t) => {
                        log(match extract(t.as_ref()) {
                            Ok(x) => Saw::Inner(x),
                            Err(_) => Saw::NoInner,
                        });
                        self.data.extend(t.to_bytes()?);
                        continue;
                    }
                    Err(e) => Err(e),
                },
            };
            match res {
                Ok(()) => {
                    self.data.extend(&buf);
                    log(Saw::Got(Some(buf)));
                }
                Err(e) => {
                    log(Saw::Got(None));
                    if !plan.stubborn {
                        return Err(e);
                    }
                }
            }
        }
        match plan.fail {
            Some(k) => Err(err(k)),
            None => Ok(()),
        }
    }
}
type PTag = ILGenericPayloadTag<P>;
fn plan(p: Plan) {
    PLAN.with(|x| *x.borrow_mut() = p);
    LOG.with(|l| l.borrow_mut().clear());
}
fn log() -> Vec<Saw> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
const IDS: [u64; 8] = [77, 32, 26, 0x1F8, u64::MAX, 17, 22, 16];
/// Factories making payload tags for all of `IDS` or the implicit ones with a size.
fn factory(ids: &[u64], strict: bool) -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(strict);
    for id in ids {
        f.engine().register(*id, Box::new(ILDefaultWithIdTagCreator::<PTag>::default()));
    }
    f
}

/// What the plan must see and do with `val`, of which only `have` bytes are there.
fn expect(p: &Plan, val: &[u8], have: usize) -> (Vec<Saw>, Vec<u8>, bool) {
    let mut saw = vec![Saw::Size(val.len())];
    let mut data = vec![];
    let mut at = 0usize;
    let mut refused = false;
    for s in &p.steps {
        let n = if *s == Step::Rest { val.len() as u64 } else { s.len() };
        if n <= (have - at) as u64 {
            let n = n as usize;
            let got = match s {
                Step::Skip(_) | Step::Skip64(_) => vec![],
                _ => val[at..at + n].to_vec(),
            };
            at += n;
            data.extend(&got);
            saw.push(Saw::Got(Some(got)));
        } else {
            saw.push(Saw::Got(None));
            if !p.stubborn {
                refused = true;
                break;
            }
        }
    }
    let ok = !refused && p.fail.is_none() && at == val.len();
    (saw, data, ok)
}
/// Decodes `b` (the tag, with `val` as value, then a tail) and compares.
fn one(f: &dyn ILTagFactory, b: &[u8], hdr: usize, id: u64, val: &[u8], p: &Plan, k: usize, into: bool) -> R {
    plan(p.clone());
    let (r, used) = with_reader(k, b, |r| {
        if into {
            let mut t = PTag::new(id);
            t.data = vec![9; 3];
            t.says = Some(1);
            f.deserialize_into(r, &mut t).map(|_| Box::new(t) as Tag)
        } else {
            f.deserialize(r)
        }
    });
    let have = val.len().min(b.len() - hdr);
    let (saw, data, ok) = expect(p, val, have);
    let got = log();
    if got != saw {
        return Err(format!("{} from {} with {:?}: the payload saw {:?}, expected {:?}", hex(b), reader_name(k), p, got, saw));
    }
    match r {
        Ok(t) => {
            ensure!(ok, "{} from {}: {:?} is accepted", hex(b), reader_name(k), p);
            let x = tag_id_downcast_ref::<PTag>(id, t.as_ref()).map_err(|e| format!("{}: decoded as another type: {:?}", hex(b), e))?;
            ensure_eq!(x.payload().data, data, "payload decoded from {}", hex(b));
            ensure_eq!(used, hdr + val.len(), "bytes of {} taken from {}", hex(b), reader_name(k));
        }
        Err(e) => {
            ensure!(!ok, "{} from {}: {:?} is refused: {:?}", hex(b), reader_name(k), p, e);
            if let (Some(n), false) = (p.fail, saw.last() == Some(&Saw::Got(None)) && !p.stubborn) {
                ensure!(is_err(&e, n), "{}: the payload fails with {}, decoding with {:?}", hex(b), n, e);
            }
            // Nothing past the part the payload was given is taken.
            ensure!(used <= hdr + val.len(), "{} from {} with {:?}: {} bytes taken", hex(b), reader_name(k), p, used);
        }
    }
    Ok(())
}
fn steps(max: usize) -> Vec<Step> {
    let mut v = vec![Step::Read, Step::Skip(1), Step::Skip(usize::MAX), Step::Skip64(2), Step::Skip64(u64::MAX), Step::Rest, Step::All(1 << 12)];
    for n in [0, 1, 2, max, max + 1] {
        v.push(Step::All(n));
    }
    v
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let mut spaces = vec![];
    let fs = Arc::new((factory(&IDS, false), factory(&IDS, true)));
    {
        let fs = fs.clone();
        let st = steps(4);
        let n = if th { 4 } else { 3 };
        spaces.push(space("reading", format!("values of 0 to 4 bytes, alone and followed by data, x payloads doing every sequence of up to {} of {} reads and skips, giving up or going on when refused, x {} kinds of reader, into new and existing tags", n, st.len(), N_READERS), move |ch| {
            let len = ch.choose(5);
            let val = fill(len, 7);
            let k = ch.choose(N_READERS);
            let mut p = Plan { stubborn: ch.flag(), ..Plan::default() };
            let m = ch.choose(n + 1);
            for _ in 0..m {
                p.steps.push(*ch.pick(&st));
            }
            let id = IDS[len % IDS.len()];
            let mut b = frame(id, &val);
            let hdr = b.len() - len;
            one(&fs.0, &b, hdr, id, &val, &p, k, false)?;
            b.extend([0xAA; 6]);
            one(&fs.1, &b, hdr, id, &val, &p, k, false)?;
            one(&fs.0, &b, hdr, id, &val, &p, k, true)?;
            ch.ops(3);
            ch.seen(len as u64 * 10 + m as u64);
            Ok(())
        }));
    }
    {
        let fs = fs.clone();
        spaces.push(space("failing", format!("payloads failing in {} ways after every number of bytes, all identifiers, new and existing tags, {} kinds of reader", N_ERRS, N_READERS), move |ch| {
            let id = *ch.pick(&IDS);
            let e = ch.choose(N_ERRS);
            let val = fill(ch.choose(4), 3);
            let n = ch.choose(val.len() + 1);
            let k = ch.choose(N_READERS);
            let p = Plan { steps: vec![Step::All(n)], fail: Some(e), ..Plan::default() };
            let mut b = frame(id, &val);
            let hdr = b.len() - val.len();
            for into in [false, true] {
                one(&fs.0, &b, hdr, id, &val, &p, k, into)?;
                b.push(1);
            }
            ch.ops(2);
            ch.seen(e as u64);
            Ok(())
        }));
    }
    {
        let fs = fs.clone();
        let st = steps(3);
        spaces.push(space("cut", "values of 1 to 3 bytes declared longer than the data that is left, every sequence of 2 reads", move |ch| {
            let len = 1 + ch.choose(3);
            let val = fill(len, 7);
            let b = frame(77, &val);
            let hdr = b.len() - len;
            let have = ch.choose(len);
            let p = Plan { steps: vec![*ch.pick(&st), *ch.pick(&st)], stubborn: ch.flag(), fail: None };
            // All or nothing: only readers in memory promise it.
            for k in [0, 1, 7] {
                one(&fs.0, &b[..hdr + have], hdr, 77, &val, &p, k, false)?;
                one(&fs.1, &b[..hdr + have], hdr, 77, &val, &p, k, true)?;
            }
            ch.ops(6);
            ch.seen((len * 4 + have) as u64);
            Ok(())
        }));
    }
    {
        // Sizes: the header's length reaches the payload for every width and form.
        let fs = fs.clone();
        let ls = lengths(if th { 1 << 22 } else { 1 << 18 });
        spaces.push(space("sizes", format!("values of {} lengths, {} identifiers, length in every form, read whole, one byte short, one byte too much", ls.len(), IDS.len()), move |ch| {
            let n = *ch.pick(&ls);
            let id = *ch.pick(&IDS);
            let val = fill(n, 7);
            for f in std::iter::once(ilint(n as u64)).chain(wide_forms(n as u64)) {
                let h = [ilint(id), f].concat();
                let b = [&h[..], &val, &[1, 2, 3]].concat();
                let whole = if n < 1 << 12 { Step::All(n) } else { Step::Rest };
                for s in [vec![whole], vec![Step::Skip(n.saturating_sub(1))], vec![Step::Skip(n), Step::Read], vec![Step::Skip(n / 2), Step::Skip64((n - n / 2) as u64)]] {
                    one(&fs.0, &b, h.len(), id, &val, &Plan { steps: s, ..Plan::default() }, 0, false)?;
                    ch.op();
                }
            }
            ch.seen(n as u64);
            Ok(())
        }));
        // Sizes beyond what is there or allowed.
        let fs2 = Arc::new(factory(&IDS, false));
        let e = u64_edges();
        spaces.push(space("large", format!("{} declared lengths up to 2^64-1 without the data: never more than the limit is announced to a payload, and it gets only what is there", e.len()), move |ch| {
            let n = *ch.pick(&e);
            let b = [ilint(77), ilint(n), vec![5; 3]].concat();
            for s in [vec![], vec![Step::Read, Step::Read, Step::Read, Step::Read], vec![Step::All(4)], vec![Step::Skip64(n)], vec![Step::All(3)]] {
                plan(Plan { steps: s, ..Plan::default() });
                let r = fs2.deserialize(&mut ByteArrayReader::new(&b));
                let l = log();
                if n > MAX {
                    ensure!(r.is_err() && l.is_empty(), "a length of {} is handed to the payload: {:?}", n, l);
                } else {
                    ensure_eq!(l.first(), Some(&Saw::Size(n as usize)), "size handed to the payload");
                    if n > 3 {
                        ensure!(r.is_err(), "a tag of {} bytes is accepted", n);
                    }
                }
                ch.op();
            }
            ch.seen(n);
            Ok(())
        }));
    }
    {
        // Payload tags among and inside others.
        let fs = Arc::new((factory(&[77], false), factory(&[77], true)));
        let st = steps(3);
        spaces.push(space("nested", format!("a payload tag between two others in each container, at one and two levels, its payload doing every sequence of 2 of {} reads: it gets its own bytes only, its neighbours are as written", st.len()), move |ch| {
            let len = ch.choose(4);
            let val = fill(len, 7);
            let p = Plan { steps: vec![*ch.pick(&st), *ch.pick(&st)], stubborn: ch.flag(), fail: None };
            let how = [ch.choose(3), ch.choose(4)];
            let x = raw(77, &val);
            let left = t(V::U16(0x0102));
            let right = t(V::U8(5));
            let mut w = wrap(how[0], vec![left.clone(), x, right.clone()]);
            if how[1] > 0 {
                w = wrap(how[1] - 1, vec![t(V::Null), w, t(V::U8(6))]);
            }
            let b = [enc(&w), vec![0xAA; 4]].concat();
            plan(p.clone());
            let mut r = ByteArrayReader::new(&b);
            let o = fs.0.deserialize(&mut r);
            let (saw, data, ok) = expect(&p, &val, val.len());
            ensure_eq!(log(), saw, "seen by the payload in {} with {:?}", hex(&b), p);
            match o {
                Err(e) => ensure!(!ok, "{} with {:?}: {:?}", hex(&b), p, e),
                Ok(tag) => {
                    ensure!(ok, "{} with {:?} is accepted", hex(&b), p);
                    ensure_eq!(r.offset(), b.len() - 4, "bytes taken of {}", hex(&b));
                    // The same but for the payload's own bytes.
                    let back = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
                    let x = raw(77, &data);
                    let mut w = wrap(how[0], vec![left, x, right]);
                    if how[1] > 0 {
                        w = wrap(how[1] - 1, vec![t(V::Null), w, t(V::U8(6))]);
                    }
                    ensure!(back == enc(&w), "{} with {:?} writes back {}, expected {}", hex(&b), p, hex(&back), hex(&enc(&w)));
                }
            }
            ch.op();
            ch.seen_bytes(&b);
            Ok(())
        }));
        let fs = Arc::new((factory(&[77], false), factory(&[77], true)));
        let ks = kinds();
        spaces.push(space("inner", format!("payloads decoding one or two tags of {} kinds with the factory given to them, both modes, whole and with the last byte beyond the declared length", ks.len()), move |ch| {
            let x = ch.pick(&ks);
            let y = ch.pick(&ks);
            let strict = ch.flag();
            let f = if strict { &fs.1 } else { &fs.0 };
            let mut v = [enc(x), enc(y)].concat();
            let short = ch.flag();
            let mut b = ilint(77);
            b.extend(ilint((v.len() - short as usize) as u64));
            b.append(&mut v);
            b.extend([0; 3]);
            plan(Plan { steps: vec![Step::Tag, Step::Tag], ..Plan::default() });
            let mut r = ByteArrayReader::new(&b);
            let o = f.deserialize(&mut r);
            let l = log();
            let known = !strict || (no_raw(x) && no_raw(y));
            if known && !short {
                ensure_eq!(l[1..], [Saw::Inner(x.clone()), Saw::Inner(y.clone())], "tags decoded inside {}", hex(&b));
                let tag = o.map_err(|e| format!("{}: {:?}", hex(&b), e))?;
                ensure_eq!(tag_id_downcast_ref::<PTag>(77, tag.as_ref()).map_err(|e| format!("{:?}", e))?.data, [enc(x), enc(y)].concat(), "payload of {}", hex(&b));
                ensure_eq!(r.offset(), b.len() - 3, "bytes taken of {}", hex(&b));
            } else {
                ensure!(o.is_err(), "{} (strict {}, short {}) is accepted", hex(&b), strict, short);
                if known && short && enc(y).len() > 0 {
                    ensure_eq!(l.get(1), Some(&Saw::Inner(x.clone())), "first tag inside {}", hex(&b));
                    ensure!(l.len() == 3 && l[2] == Saw::Got(None) || l.len() == 2, "a tag is decoded beyond the end of its container: {:?}", l);
                }
            }
            ch.op();
            ch.seen_bytes(&b);
            Ok(())
        }));
        let f = Arc::new(factory(&[77], false));
        let d = if th { 40 } else { 12 };
        spaces.push(space("recursive", format!("payload tags decoding payload tags up to {} deep", d), move |ch| {
            let depth = ch.choose(d);
            let extra = ch.choose(3);
            let mut b = vec![3u8, 9];
            for i in 0..=depth {
                // At one level the length is wrong.
                let n = b.len() as u64;
                let n = if extra > 0 && i == depth / 2 { n.wrapping_add([0, 1, u64::MAX][extra]) } else { n };
                b = [ilint(77), ilint(n), b].concat();
            }
            b.extend([0; 8]);
            plan(Plan { steps: vec![Step::Tag], ..Plan::default() });
            let mut r = ByteArrayReader::new(&b);
            let o = f.deserialize(&mut r);
            ensure!(o.is_ok() == (extra == 0), "{}: accepted {}", hex(&b), o.is_ok());
            if let Ok(t) = o {
                ensure_eq!(r.offset(), b.len() - 8, "bytes taken");
                ensure_eq!(t.to_bytes().map_err(|e| format!("{:?}", e))?, b[..b.len() - 8].to_vec(), "written back");
            }
            ch.op();
            ch.seen_bytes(&b);
            Ok(())
        }));
    }
    {
        // Implicit identifiers: their fixed sizes.
        let imp: [(u64, usize); 13] = [(0, 0), (1, 1), (2, 1), (3, 1), (4, 2), (5, 2), (6, 4), (7, 4), (8, 8), (9, 8), (11, 4), (12, 8), (13, 16)];
        let ids: Vec<u64> = imp.iter().map(|x| x.0).collect();
        let f = Arc::new(factory(&ids, true));
        let st = steps(16);
        spaces.push(space("implicit", format!("payload tags for {} implicit identifiers, every sequence of 2 reads: their size is the one of the identifier, and no length is written", imp.len()), move |ch| {
            let (id, n) = *ch.pick(&imp);
            let val = fill(n, 7);
            let b = [&[id as u8][..], &val, &[1; 20]].concat();
            let p = Plan { steps: vec![*ch.pick(&st), *ch.pick(&st)], stubborn: ch.flag(), fail: None };
            one(f.as_ref(), &b, 1, id, &val, &p, 0, ch.flag())?;
            let mut t = PTag::new(id);
            t.data = val.clone();
            ensure_eq!(t.to_bytes().map_err(|e| format!("{:?}", e))?, b[..1 + n].to_vec(), "written with identifier {}", id);
            ensure_eq!((t.size(), t.value_size()), (1 + n as u64, n as u64), "sizes with identifier {}", id);
            ch.ops(2);
            ch.seen(id);
            Ok(())
        }));
    }
    {
        let mut ids = u64_edges();
        ids.extend(0..60);
        let core = ids.len();
        ids.extend(crate::alpha::id_aliases());
        let ls: Vec<usize> = [0usize, 1, 2, 5, 246, 247, 248, 249, 503, 504, 65783, 65784].to_vec();
        spaces.push(space("writing", format!("{} identifiers x data of {} lengths x what the payload announces (the same, other lengths): identifier, announced length, data; sizes; every writer", ids.len(), ls.len()), move |ch| {
            let at = ch.choose(ids.len());
            let id = ids[at];
            let n = if at < core { *ch.pick(&ls) } else { *ch.pick(&[2usize, 248]) };
            let says = *ch.pick(&[None, Some(0usize), Some(1), Some(247), Some(248), Some(70000), Some(u32::MAX as usize), Some(1 << 32), Some((1 << 32) + 248), Some(1 << 40), Some(1 << 63), Some(usize::MAX - 20)]);
            let mut t = PTag::new(id);
            t.mut_payload().data = fill(n, 2);
            t.mut_payload().says = says;
            let ann = says.unwrap_or(n) as u64;
            let mut want = ilint(id);
            if id >= 16 {
                want.extend(ilint(ann));
            }
            ensure_eq!(t.value_size(), ann, "value size");
            ensure_eq!(t.size(), want.len() as u64 + ann, "size with identifier {}", id);
            ensure_eq!((t.id(), t.is_implicity(), t.is_reserved()), (id, id < 16, id < 32), "identifier");
            want.extend(fill(n, 2));
            for k in 0..N_WRITERS {
                if n > 1000 && k != 0 && k != 5 {
                    continue;
                }
                let (r, out) = with_writer(k, want.len(), |w| t.serialize(w));
                r.map_err(|e| format!("{}: {:?}", writer_name(k), e))?;
                ensure!(out == want, "{}: identifier {}, {} bytes announced as {:?}: {}, expected {}", writer_name(k), id, n, says, hex(&out[..out.len().min(40)]), hex(&want[..want.len().min(40)]));
                ch.op();
            }
            ch.seen(id ^ (n as u64) << 40);
            Ok(())
        }));
        spaces.push(space("write_faults", format!("payloads failing after any part of their data in {} ways, and writers failing at every operation in {} ways, alone and nested: the error comes back unchanged and nothing is written after it", N_ERRS, N_FAULTS), move |ch| {
            let how = ch.choose(4);
            let mut t = PTag::new(77);
            t.data = fill(5, 2);
            let mine = ch.flag();
            let at = ch.choose(N_ERRS.max(12));
            if mine {
                t.fail_write = Some(at);
            }
            let t: Tag = match how {
                0 => Box::new(t),
                1 => {
                    let mut s = ILTagSeqTag::new();
                    s.mut_value().push(Box::new(t));
                    s.mut_value().push(Box::new(ILNullTag::new()));
                    Box::new(s)
                }
                2 => {
                    let mut s = ILTagArrayTag::new();
                    s.mut_value().push(Box::new(t));
                    s.mut_value().push(Box::new(ILNullTag::new()));
                    Box::new(s)
                }
                _ => {
                    let mut s = ILDictTag::new();
                    s.insert("a", Box::new(t));
                    s.insert("b", Box::new(ILNullTag::new()));
                    Box::new(s)
                }
            };
            if mine {
                for k in 0..N_WRITERS {
                    let (r, out) = with_writer(k, 200, |w| t.serialize(w));
                    match r {
                        Err(e) if is_err(&e, at) => {}
                        r => return Err(format!("{}: {:?} when the payload fails with {}", writer_name(k), r, at)),
                    }
                    let lead = [0usize, 2, 3, 8][how];
                    ensure!(out.len() <= lead + 2 + (2 * at).min(5), "{}: {} bytes written when the payload fails after {}", writer_name(k), out.len(), (2 * at).min(5));
                }
                ensure!(matches!(t.to_bytes(), Err(e) if is_err(&e, at)), "to_bytes when the payload fails with {}", at);
                ch.ops(N_WRITERS as u64 + 1);
                return Ok(());
            }
            for kind in 0..N_FAULTS {
                for bytewise in [false, true] {
                    let mut w = FaultWriter::new(at, kind, bytewise);
                    let r = t.serialize(&mut w);
                    match r {
                        Ok(()) => ensure!(!w.failed, "success although the writer failed"),
                        Err(ErrorKind::IOError(e)) => ensure!(w.failed && w.after == 0 && is_fault(&e, kind, at as u64), "{:?} for failure {} at {}", e, kind, at),
                        Err(e) => return Err(format!("{:?} for failure {} at {}", e, kind, at)),
                    }
                    ch.op();
                }
            }
            Ok(())
        }));
    }
    {
        let depth = if th { 5 } else { 4 };
        let f = Arc::new(factory(&IDS, false));
        spaces.push(space("accessors", format!("every history of {} changes through every accessor, decodes and failed decodes: one payload, seen the same everywhere", depth), move |ch| {
            let id = *ch.pick(&[77u64, 3, u64::MAX]);
            let mut t = match ch.choose(2) {
                0 => PTag::new(id),
                _ => PTag::default_with_id(id),
            };
            let mut m: Vec<u8> = P::default().data;
            let mut hist = vec![];
            for step in 0..=depth {
                // One object.
                let a = t.payload() as *const P;
                let b = t.mut_payload() as *const P;
                let c = &*t as *const P;
                let d = &mut *t as *const P;
                ensure!(a == b && b == c && c == d, "accessors return different payloads after {:?}", hist);
                ensure_eq!(t.payload().data, m, "payload after {:?}", hist);
                ensure_eq!(t.data, m, "payload after {:?}", hist);
                ensure_eq!((t.id(), t.value_size()), (id, m.len() as u64), "identifier and size after {:?}", hist);
                let mut w = VecWriter::new();
                t.serialize_value(&mut w).map_err(|e| format!("{:?}", e))?;
                ensure_eq!(w.as_slice(), &m[..], "value written after {:?}", hist);
                ensure!(t.as_any().downcast_ref::<PTag>().map(|x| x as *const PTag) == Some(&t as *const PTag), "as_any");
                ensure!(t.as_mut_any().downcast_mut::<PTag>().is_some(), "as_mut_any");
                ch.op();
                if step == depth {
                    break;
                }
                let k = ch.choose(7);
                hist.push(k);
                match k {
                    0 => break,
                    1 => {
                        t.mut_payload().data.push(1);
                        m.push(1);
                    }
                    2 => {
                        t.data.push(2);
                        m.push(2);
                    }
                    3 => {
                        *t = P { data: vec![7; 3], says: None, fail_write: None };
                        m = vec![7; 3];
                    }
                    4 => {
                        let p: &mut P = t.as_mut_any().downcast_mut::<PTag>().ok_or("downcast")?;
                        p.data.insert(0, 4);
                        m.insert(0, 4);
                    }
                    5 => {
                        // Straight into the value, through the tag.
                        plan(Plan { steps: vec![Step::Rest], ..Plan::default() });
                        t.deserialize_value(f.as_ref(), 2, &mut ByteArrayReader::new(&[8, 9, 10])).map_err(|e| format!("{:?}", e))?;
                        ensure_eq!(log(), vec![Saw::Size(2), Saw::Got(Some(vec![8, 9]))], "seen by the payload");
                        m = vec![8, 9];
                    }
                    _ => {
                        // A decode that finds another identifier leaves it alone.
                        plan(Plan { steps: vec![Step::Rest], ..Plan::default() });
                        let b = frame(78, &[1, 2]);
                        let r = f.deserialize_into(&mut ByteArrayReader::new(&b), &mut t);
                        ensure!(matches!(r, Err(ErrorKind::UnexpectedTagType)), "decoding another identifier: {:?}", r);
                        ensure!(log().is_empty(), "the payload was asked to decode another identifier");
                    }
                }
            }
            ch.seen_bytes(&m);
            Ok(())
        }));
    }
    Prop { id: "C27", spaces, assumptions: vec!["the payload announces the size it has when serialization starts and does not change while being serialized".into()] }
}
