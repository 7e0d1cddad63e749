//! Model tree <-> real tags, through the public API only.
use crate::model::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::{ErrorKind, ILDefaultWithIdTagCreator, ILRawTag, ILTag};

pub type Tag = Box<dyn ILTag>;

pub fn build(x: &T) -> Tag {
    let id = x.id;
    match &x.v {
        V::Null => Box::new(ILNullTag::with_id(id)),
        V::Bool(v) => Box::new(ILBoolTag::with_id_value(id, *v)),
        V::I8(v) => Box::new(ILInt8Tag::with_id_value(id, *v)),
        V::U8(v) => Box::new(ILUInt8Tag::with_id_value(id, *v)),
        V::I16(v) => Box::new(ILInt16Tag::with_id_value(id, *v)),
        V::U16(v) => Box::new(ILUInt16Tag::with_id_value(id, *v)),
        V::I32(v) => Box::new(ILInt32Tag::with_id_value(id, *v)),
        V::U32(v) => Box::new(ILUInt32Tag::with_id_value(id, *v)),
        V::I64(v) => Box::new(ILInt64Tag::with_id_value(id, *v)),
        V::U64(v) => Box::new(ILUInt64Tag::with_id_value(id, *v)),
        V::Int(v) => Box::new(ILILInt64Tag::with_id_value(id, *v)),
        V::F32(v) => Box::new(ILBin32Tag::with_id_value(id, f32::from_bits(*v))),
        V::F64(v) => Box::new(ILBin64Tag::with_id_value(id, f64::from_bits(*v))),
        V::F128(v) => Box::new(ILBin128Tag::with_id_value(id, v)),
        V::SInt(v) => Box::new(ILSignedILInt64Tag::with_id_value(id, *v)),
        V::Bytes(v) => {
            assert!(id == 16, "harness: byte array id");
            Box::new(ILByteArrayTag::with_value(v))
        }
        V::BigInt(v) => {
            assert!(id == 18, "harness: big int id");
            Box::new(ILBigIntTag::with_value(v))
        }
        V::Str(v) => Box::new(ILStringTag::with_id_value(id, v)),
        V::BigDec(s, v) => Box::new(ILBigDecTag::with_id_value(id, *s, v)),
        V::Ints(v) => Box::new(ILILIntArrayTag::with_id_value(id, v)),
        V::Oid(v) => Box::new(ILOIDTag::with_id_value(id, v)),
        V::Arr(a) => {
            let mut y = ILTagArrayTag::with_id(id);
            for e in a {
                y.mut_value().push(build(e));
            }
            Box::new(y)
        }
        V::Seq(a) => {
            let mut y = ILTagSeqTag::with_id(id);
            for e in a {
                y.mut_value().push(build(e));
            }
            Box::new(y)
        }
        V::Range(s, c) => Box::new(ILRangeTag::with_id_value(id, *s, *c)),
        V::Ver(a) => Box::new(ILVersionTag::with_id_value(id, a[0], a[1], a[2], a[3])),
        V::Dict(m) => {
            let mut y = ILDictTag::with_id(id);
            // Not in key order: the order must not depend on insertion.
            for (k, e) in m.iter().rev() {
                y.insert(k, build(e));
            }
            Box::new(y)
        }
        V::SDict(m) => {
            let mut y = ILStrDictTag::with_id(id);
            for (k, e) in m.iter().rev() {
                y.insert(k, e);
            }
            Box::new(y)
        }
        V::Raw(v) => Box::new(ILRawTag::with_value(id, v)),
    }
}

pub fn extract(tag: &dyn ILTag) -> Result<T, String> {
    let a = tag.as_any();
    macro_rules! simple {
        ($($ty:ty => $f:expr),* $(,)?) => { $( if let Some(x) = a.downcast_ref::<$ty>() { let f: fn(&$ty) -> V = $f; return Ok(T { id: tag.id(), v: f(x) }); } )* };
    }
    simple! {
        ILNullTag => |_| V::Null,
        ILBoolTag => |x| V::Bool(x.value()),
        ILInt8Tag => |x| V::I8(x.value()),
        ILUInt8Tag => |x| V::U8(x.value()),
        ILInt16Tag => |x| V::I16(x.value()),
        ILUInt16Tag => |x| V::U16(x.value()),
        ILInt32Tag => |x| V::I32(x.value()),
        ILUInt32Tag => |x| V::U32(x.value()),
        ILInt64Tag => |x| V::I64(x.value()),
        ILUInt64Tag => |x| V::U64(x.value()),
        ILILInt64Tag => |x| V::Int(x.value()),
        ILBin32Tag => |x| V::F32(x.value().to_bits()),
        ILBin64Tag => |x| V::F64(x.value().to_bits()),
        ILBin128Tag => |x| V::F128(*x.value()),
        ILSignedILInt64Tag => |x| V::SInt(x.value()),
        ILByteArrayTag => |x| V::Bytes(x.value().clone()),
        ILStringTag => |x| V::Str(x.value().to_string()),
        ILBigIntTag => |x| V::BigInt(x.value().clone()),
        ILBigDecTag => |x| V::BigDec(x.scale(), x.value().clone()),
        ILILIntArrayTag => |x| V::Ints(x.value().clone()),
        ILOIDTag => |x| V::Oid(x.value().clone()),
        ILRangeTag => |x| V::Range(x.start(), x.count()),
        ILVersionTag => |x| V::Ver([x.major(), x.minor(), x.revision(), x.build()]),
        ILStrDictTag => |x| V::SDict(x.value().iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
        ILRawTag => |x| V::Raw(x.value().clone()),
    }
    let v = if let Some(x) = a.downcast_ref::<ILTagArrayTag>() {
        V::Arr(x.value().iter().map(|e| extract(e.as_ref())).collect::<Result<_, _>>()?)
    } else if let Some(x) = a.downcast_ref::<ILTagSeqTag>() {
        V::Seq(x.value().iter().map(|e| extract(e.as_ref())).collect::<Result<_, _>>()?)
    } else if let Some(x) = a.downcast_ref::<ILDictTag>() {
        let mut m = std::collections::BTreeMap::new();
        for (k, e) in x.value() {
            m.insert(k.clone(), extract(e.as_ref())?);
        }
        V::Dict(m)
    } else {
        return Err(format!("tag with id {} has an unexpected concrete type", tag.id()));
    };
    Ok(T { id: tag.id(), v })
}

/// The same tag type, with its id, as an empty instance.
pub fn empty_like(x: &T) -> Tag {
    let v = match &x.v {
        V::Null => V::Null,
        V::Bool(_) => V::Bool(false),
        V::I8(_) => V::I8(0),
        V::U8(_) => V::U8(0),
        V::I16(_) => V::I16(0),
        V::U16(_) => V::U16(0),
        V::I32(_) => V::I32(0),
        V::U32(_) => V::U32(0),
        V::I64(_) => V::I64(0),
        V::U64(_) => V::U64(0),
        V::Int(_) => V::Int(0),
        V::F32(_) => V::F32(0),
        V::F64(_) => V::F64(0),
        V::F128(_) => V::F128([0; 16]),
        V::SInt(_) => V::SInt(0),
        V::Bytes(_) => V::Bytes(vec![]),
        V::Str(_) => V::Str(String::new()),
        V::BigInt(_) => V::BigInt(vec![]),
        V::BigDec(..) => V::BigDec(0, vec![]),
        V::Ints(_) => V::Ints(vec![]),
        V::Arr(_) => V::Arr(vec![]),
        V::Seq(_) => V::Seq(vec![]),
        V::Range(..) => V::Range(0, 0),
        V::Ver(_) => V::Ver([0; 4]),
        V::Oid(_) => V::Oid(vec![]),
        V::Dict(_) => V::Dict(Default::default()),
        V::SDict(_) => V::SDict(Default::default()),
        V::Raw(_) => V::Raw(vec![]),
    };
    build(&T { id: x.id, v })
}

/// Error class of the tags package, as far as callers can rely on it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EC {
    Unknown,
    Unsupported,
    Corrupt,
    TooLarge,
    Unexpected,
    UnableToSerialize,
    Io,
    Boxed,
}
pub fn class(e: &ErrorKind) -> EC {
    match e {
        ErrorKind::UnknownTag => EC::Unknown,
        ErrorKind::UnsupportedTag => EC::Unsupported,
        ErrorKind::CorruptedData => EC::Corrupt,
        ErrorKind::TagTooLarge => EC::TooLarge,
        ErrorKind::UnexpectedTagType => EC::Unexpected,
        ErrorKind::UnableToSerialize => EC::UnableToSerialize,
        ErrorKind::IOError(il2_iltags::io::ErrorKind::CorruptedData) => EC::Corrupt,
        ErrorKind::IOError(_) => EC::Io,
        ErrorKind::Boxed(_) => EC::Boxed,
    }
}

/// A standard factory on which every standard type (with identifiers of choice) is
/// also registered under identifiers of the user, as `own_kind` says.
pub fn own_factory(strict: bool) -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(strict);
    for (i, _) in OWN_BASES.iter().enumerate() {
        for k in OWN_KINDS {
            let id = own_id(k, i).expect("harness: own kind");
            assert!(own_kind(id) == Some(k), "harness: own kinds");
            macro_rules! reg {
                ($($n:literal => $ty:ty),* $(,)?) => { match k { $( $n => { f.engine().register(id, Box::new(ILDefaultWithIdTagCreator::<$ty>::new())); } )* _ => panic!("harness: kind") } };
            }
            reg!(0 => ILNullTag, 1 => ILBoolTag, 2 => ILInt8Tag, 3 => ILUInt8Tag, 4 => ILInt16Tag, 5 => ILUInt16Tag, 6 => ILInt32Tag, 7 => ILUInt32Tag,
                8 => ILInt64Tag, 9 => ILUInt64Tag, 10 => ILILInt64Tag, 11 => ILBin32Tag, 12 => ILBin64Tag, 13 => ILBin128Tag, 14 => ILSignedILInt64Tag,
                17 => ILStringTag, 19 => ILBigDecTag, 20 => ILILIntArrayTag, 21 => ILTagArrayTag, 22 => ILTagSeqTag, 23 => ILRangeTag, 24 => ILVersionTag,
                25 => ILOIDTag, 30 => ILDictTag, 31 => ILStrDictTag);
        }
    }
    f
}
