//! C25: downcasts succeed exactly for the right type and identifier.
use super::docs::*;
use crate::alpha::*;
use crate::bridge::*;
use crate::engine::*;
use crate::env::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::any::Any;
use std::sync::Arc;

macro_rules! payload {
    ($n:ident) => {
        #[derive(Default)]
        pub struct $n(Vec<u8>);
        impl ILTagPayload for $n {
            fn serialized_size(&self) -> usize {
                self.0.len()
            }
            fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
                Ok(w.write_all(&self.0)?)
            }
            fn deserialize(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
                self.0 = vec![0; n];
                Ok(r.read_all(&mut self.0)?)
            }
        }
    };
}
payload!(PA);
payload!(PB);
/// A user tag of size zero: a reference to it says nothing by its address alone.
pub struct Empty;
impl ILTag for Empty {
    fn id(&self) -> u64 {
        99
    }
    fn value_size(&self) -> u64 {
        0
    }
    fn serialize_value(&self, _: &mut dyn Writer) -> Result<()> {
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> {
        Ok(())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
/// The same shape under another type, whose identifier changes.
pub struct Shifting(pub u64);
impl ILTag for Shifting {
    fn id(&self) -> u64 {
        self.0
    }
    fn value_size(&self) -> u64 {
        0
    }
    fn serialize_value(&self, _: &mut dyn Writer) -> Result<()> {
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn Reader) -> Result<()> {
        Ok(())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}

fn addr(t: &dyn ILTag) -> *const u8 {
    t as *const dyn ILTag as *const u8
}
/// All functions for one requested type and id; `is` and `own` say what the tag is.
fn probe<X: ILTag>(tag: &mut dyn ILTag, is: bool, own: u64, id: u64) -> R {
    let at = addr(tag);
    let both = is && own == id;
    let p = |x: Option<&X>| x.map(|x| x as *const X as *const u8);
    let want = |b: bool| if b { Some(at) } else { None };
    let fits = |what: &str, got: Option<*const u8>, b: bool| -> R {
        if got != want(b) {
            return Err(format!("{}: {}, expected {}", what, if got.is_some() { if b { "another object" } else { "succeeds" } } else { "fails" }, if b { "success" } else { "failure" }));
        }
        Ok(())
    };
    fits("tag_downcast_ref", p(tag_downcast_ref::<X>(tag)), is)?;
    fits("tag_downcast_mut", p(tag_downcast_mut::<X>(tag).map(|x| &*x)), is)?;
    fits("tag_downcast_ref_with_id", p(tag_downcast_ref_with_id::<X>(id, tag)), both)?;
    fits("tag_downcast_mut_with_id", p(tag_downcast_mut_with_id::<X>(id, tag).map(|x| &*x)), both)?;
    let unexpected = |what: &str, e: ErrorKind| -> R {
        match e {
            ErrorKind::UnexpectedTagType => Ok(()),
            e => Err(format!("{}: {:?}, expected UnexpectedTagType", what, e)),
        }
    };
    match tag_id_downcast_ref::<X>(id, tag) {
        Ok(x) => fits("tag_id_downcast_ref", p(Some(x)), both)?,
        Err(e) => {
            fits("tag_id_downcast_ref", None, both)?;
            unexpected("tag_id_downcast_ref", e)?;
        }
    }
    match tag_id_downcast_mut::<X>(id, tag) {
        Ok(x) => fits("tag_id_downcast_mut", p(Some(&*x)), both)?,
        Err(e) => {
            fits("tag_id_downcast_mut", None, both)?;
            unexpected("tag_id_downcast_mut", e)?;
        }
    }
    match assert_tag_id_and_type::<X>(id, tag) {
        Ok(()) => ensure!(both, "assert_tag_id_and_type succeeds"),
        Err(e) => {
            ensure!(!both, "assert_tag_id_and_type fails: {:?}", e);
            unexpected("assert_tag_id_and_type", e)?;
        }
    }
    for k in 0..8 + N_FAULTS {
        let give = match k {
            0 => ErrorKind::UnknownTag,
            1 => ErrorKind::UnsupportedTag,
            2 => ErrorKind::CorruptedData,
            3 => ErrorKind::TagTooLarge,
            4 => ErrorKind::UnexpectedTagType,
            5 => ErrorKind::UnableToSerialize,
            6 | 7 => ErrorKind::Boxed(Box::new(Injected(k as u64))),
            k => ErrorKind::IOError(fault(k - 8, 5)),
        };
        match assert_tag_id_and_type_or_error::<X>(id, tag, give) {
            Ok(()) => ensure!(both, "assert_tag_id_and_type_or_error succeeds"),
            Err(e) => {
                ensure!(!both, "assert_tag_id_and_type_or_error fails: {:?}", e);
                let ok = match (k, &e) {
                    (0, ErrorKind::UnknownTag) | (1, ErrorKind::UnsupportedTag) | (2, ErrorKind::CorruptedData) | (3, ErrorKind::TagTooLarge) | (4, ErrorKind::UnexpectedTagType) | (5, ErrorKind::UnableToSerialize) => true,
                    (6, ErrorKind::Boxed(b)) | (7, ErrorKind::Boxed(b)) => b.downcast_ref::<Injected>().map(|i| i.0) == Some(k as u64),
                    (k, ErrorKind::IOError(e)) if k >= 8 => is_fault(e, k - 8, 5),
                    _ => false,
                };
                ensure!(ok, "assert_tag_id_and_type_or_error gives {:?} for error {}", e, k);
            }
        }
    }
    Ok(())
}
type Probe = fn(&mut dyn ILTag, bool, u64, u64) -> R;
struct Ty {
    name: &'static str,
    probe: Probe,
}
const N_TY: usize = 32;
fn types() -> Vec<Ty> {
    macro_rules! ty { ($($t:ty),*) => { vec![$( Ty { name: stringify!($t), probe: probe::<$t> } ),*] } }
    ty!(
        ILNullTag, ILBoolTag, ILInt8Tag, ILUInt8Tag, ILInt16Tag, ILUInt16Tag, ILInt32Tag, ILUInt32Tag, ILInt64Tag, ILUInt64Tag, ILILInt64Tag, ILBin32Tag, ILBin64Tag, ILBin128Tag,
        ILSignedILInt64Tag, ILByteArrayTag, ILStringTag, ILBigIntTag, ILBigDecTag, ILILIntArrayTag, ILTagArrayTag, ILTagSeqTag, ILRangeTag, ILVersionTag, ILOIDTag, ILDictTag, ILStrDictTag,
        ILRawTag, ILGenericPayloadTag<PA>, ILGenericPayloadTag<PB>, Empty, Shifting
    )
}
/// The tag of type number `k` with the given id, if the type takes one.
fn make(k: usize, id: u64) -> Option<Tag> {
    let ks = kinds();
    Some(match k {
        15 => {
            if id != 16 {
                return None;
            }
            build(&ks[15])
        }
        17 => {
            if id != 18 {
                return None;
            }
            build(&ks[17])
        }
        18 | 27 if id < 16 => return None,
        27 => Box::new(ILRawTag::with_value(id, &[1])),
        28 => Box::new(ILGenericPayloadTag::<PA>::new(id)),
        29 => Box::new(ILGenericPayloadTag::<PB>::new(id)),
        30 => {
            if id != 99 {
                return None;
            }
            Box::new(Empty)
        }
        31 => Box::new(Shifting(id)),
        k => build(&T { id, v: ks[k].v.clone() }),
    })
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let tys = Arc::new(types());
    assert!(tys.len() == N_TY, "harness: types");
    let mut ids: Vec<u64> = (0..=if th { 300 } else { 40 }).collect();
    ids.extend([99, 247, 248, 0x1F8, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX]);
    // identifiers sharing their low bits with others of the list
    ids.extend([(1 << 32) | 7, (1 << 16) | 7, 256 + 7, (1 << 32) | 99]);
    if th {
        ids.extend(u64_few());
    }
    ids.sort();
    ids.dedup();
    let mut spaces = vec![];
    {
        let tys = tys.clone();
        let ids = ids.clone();
        spaces.push(space("matrix", format!("every tag type and identifier x every requested type and identifier: {} types, {} identifiers, all 8 functions", N_TY, ids.len()), move |ch| {
            let k = ch.choose(N_TY);
            let own = *ch.pick(&ids);
            let mut tag = match make(k, own) {
                Some(t) => t,
                None => return Ok(()),
            };
            ensure_eq!(tag.id(), own, "id of a {} tag", tys[k].name);
            let b = tag.to_bytes().map_err(|e| format!("harness: {:?}", e))?;
            let mut n = 0;
            for (q, ty) in tys.iter().enumerate() {
                for id in &ids {
                    (ty.probe)(tag.as_mut(), q == k, own, *id).map_err(|m| format!("{} tag with id {} as {} with id {}: {}", tys[k].name, own, ty.name, id, m))?;
                    n += 1;
                }
            }
            let b2 = tag.to_bytes().map_err(|e| format!("{:?}", e))?;
            ensure!(b == b2 && tag.id() == own, "a {} tag changed while it was asked for its type", tys[k].name);
            ch.visit(n - 1);
            ch.ops(n * 22);
            ch.seen(own ^ (k as u64) << 50);
            Ok(())
        }));
    }
    {
        // Decoded, cloned and nested tags, and what is done through the reference.
        let tys = tys.clone();
        let ks = Arc::new(kinds());
        spaces.push(space("decoded", "every kind of tag as decoded, cloned, and inside every container, asked for every type; changes through a mutable downcast are changes of that tag", move |ch| {
            let f = ILStandardTagFactory::new(false);
            let i = ch.choose(ks.len());
            let x = &ks[i];
            let k = i.min(27);
            let mut tag = f.from_bytes(&enc(x)).map_err(|e| format!("harness: {:?}", e))?;
            let how = ch.choose(5);
            let check = |tag: &mut dyn ILTag| -> R {
                for (q, ty) in tys.iter().enumerate() {
                    for id in [x.id, x.id ^ 1, 0, 16, 22, u64::MAX] {
                        (ty.probe)(tag, q == k, x.id, id).map_err(|m| format!("{:?} as {} with id {}: {}", x, ty.name, id, m))?;
                    }
                }
                Ok(())
            };
            match how {
                0 => check(tag.as_mut())?,
                1 => {
                    let mut c = util::iltag_clone(tag.as_ref()).map_err(|e| format!("harness: {:?}", e))?;
                    check(c.as_mut())?;
                }
                2 => {
                    let mut c = ILTagSeqTag::new();
                    c.mut_value().push(Box::new(ILNullTag::new()));
                    c.mut_value().push(tag);
                    check(c.mut_value()[1].as_mut())?;
                }
                3 => {
                    let mut c = ILDictTag::new();
                    c.insert("k", tag);
                    check(c.mut_value().get_mut("k").ok_or("harness: key")?.as_mut())?;
                }
                _ => {
                    // A change through the reference.
                    macro_rules! change { ($($t:ty => $f:expr),*) => { $( if let Some(y) = tag_id_downcast_mut::<$t>(x.id, tag.as_mut()).ok() { let f: fn(&mut $t) = $f; f(y); } )* } }
                    change!(ILUInt8Tag => |y| y.set_value(9), ILStringTag => |y| y.set_value("new"), ILRawTag => |y| y.mut_value().push(9),
                        ILTagSeqTag => |y| y.mut_value().clear(), ILDictTag => |y| { y.insert("z", Box::new(ILNullTag::new())); }, ILRangeTag => |y| y.set_start(3));
                    let mut z = x.clone();
                    match &mut z.v {
                        V::U8(v) => *v = 9,
                        V::Str(v) => *v = "new".into(),
                        V::Raw(v) => v.push(9),
                        V::Seq(v) => v.clear(),
                        V::Dict(m) => {
                            m.insert("z".into(), t(V::Null));
                        }
                        V::Range(s, _) => *s = 3,
                        _ => {}
                    }
                    ensure_eq!(extract(tag.as_ref())?, z, "after a change through a downcast");
                    check(tag.as_mut())?;
                }
            }
            ch.ops(6 * N_TY as u64);
            ch.seen((i * 5 + how) as u64);
            Ok(())
        }));
        spaces.push(space("shifting", format!("a tag whose identifier changes between {} identifiers: every answer follows the current one", ids.len()), move |ch| {
            let a = *ch.pick(&ids);
            for b in &ids {
                let mut t = Shifting(a);
                for (now, q) in [(a, a), (a, *b), (*b, a), (*b, *b)] {
                    t.0 = now;
                    probe::<Shifting>(&mut t, true, now, q)?;
                    probe::<Empty>(&mut t, false, now, q)?;
                }
            }
            ch.visit(ids.len() as u64 - 1);
            ch.ops(ids.len() as u64 * 8);
            ch.seen(a);
            Ok(())
        }));
    }
    Prop { id: "C25", spaces, assumptions: vec![] }
}
