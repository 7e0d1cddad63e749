//! Every tag type as a state machine: constructors, mutations and decodes, on the
//! tag and on a plain value.
use super::docs::*;
use crate::bridge::*;
use crate::model::*;
use il2_iltags::io::array::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::sync::Arc;

pub type Op = Arc<dyn Fn(&mut dyn ILTag, &mut V) + Send + Sync>;
pub type Ctor = Arc<dyn Fn() -> (Tag, T) + Send + Sync>;
pub struct Machine {
    pub name: &'static str,
    pub ctors: Vec<(String, Ctor)>,
    pub ops: Vec<(String, Op)>,
}
pub const ID: u64 = 0x1F8;

fn at<X: ILTag>(tag: &mut dyn ILTag) -> &mut X {
    tag.as_mut_any().downcast_mut::<X>().expect("concrete type changed")
}
impl Machine {
    fn new(name: &'static str) -> Machine {
        Machine { name, ctors: vec![], ops: vec![] }
    }
    fn ctor<X: ILTag>(&mut self, name: impl Into<String>, id: u64, v: V, f: impl Fn() -> X + Send + Sync + 'static) {
        self.ctors.push((name.into(), Arc::new(move || (Box::new(f()) as Tag, T { id, v: v.clone() }))));
    }
    fn op(&mut self, name: impl Into<String>, f: impl Fn(&mut dyn ILTag, &mut V) + Send + Sync + 'static) {
        self.ops.push((name.into(), Arc::new(f)));
    }
    /// Decoding `v` into the tag.
    fn decode(&mut self, v: V) {
        self.op(format!("decode {:?}", v), move |tag, m| {
            let b = enc(&T { id: tag.id(), v: v.clone() });
            let f = ILStandardTagFactory::new(false);
            f.deserialize_into(&mut ByteArrayReader::new(&b), tag).expect("decode");
            *m = v.clone();
        });
    }
}

pub fn machines() -> Vec<Machine> {
    let mut out = vec![];
    macro_rules! simple {
        ($name:literal, $ty:ident, $var:path, $id:literal, $zero:expr, $x:expr, $y:expr, $z:expr) => {{
            let [zero, x, y, _z] = [$zero, $x, $y, $z];
            let mut m = Machine::new($name);
            m.ctor("new", $id, $var(zero.1), $ty::new);
            m.ctor("default", $id, $var(zero.1), $ty::default);
            m.ctor("with_value", $id, $var(x.1), move || $ty::with_value(x.0));
            m.ctor("with_id", ID, $var(zero.1), || $ty::with_id(ID));
            m.ctor("default_with_id", 247, $var(zero.1), || $ty::default_with_id(247));
            m.ctor("with_id_value", ID, $var(y.1), move || $ty::with_id_value(ID, y.0));
            for (n, v) in [("zero", zero), ("x", x), ("y", y), ("z", _z)] {
                m.op(format!("set_value({})", n), move |t, m| {
                    at::<$ty>(t).set_value(v.0);
                    *m = $var(v.1);
                });
            }
            m.decode($var(_z.1));
            m.decode($var(x.1));
            out.push(m);
        }};
    }
    simple!("ILBoolTag", ILBoolTag, V::Bool, 1, (false, false), (true, true), (true, true), (false, false));
    simple!("ILInt8Tag", ILInt8Tag, V::I8, 2, (0, 0), (i8::MIN, i8::MIN), (-1, -1), (i8::MAX, i8::MAX));
    simple!("ILUInt8Tag", ILUInt8Tag, V::U8, 3, (0, 0), (0xF8, 0xF8), (1, 1), (u8::MAX, u8::MAX));
    simple!("ILInt16Tag", ILInt16Tag, V::I16, 4, (0, 0), (i16::MIN, i16::MIN), (-2, -2), (0x0102, 0x0102));
    simple!("ILUInt16Tag", ILUInt16Tag, V::U16, 5, (0, 0), (0xFF00, 0xFF00), (0x0102, 0x0102), (u16::MAX, u16::MAX));
    simple!("ILInt32Tag", ILInt32Tag, V::I32, 6, (0, 0), (i32::MIN, i32::MIN), (-2, -2), (0x01020304, 0x01020304));
    simple!("ILUInt32Tag", ILUInt32Tag, V::U32, 7, (0, 0), (0xFFFF0000, 0xFFFF0000), (0x01020304, 0x01020304), (u32::MAX, u32::MAX));
    simple!("ILInt64Tag", ILInt64Tag, V::I64, 8, (0, 0), (i64::MIN, i64::MIN), (-2, -2), (0x0102030405060708, 0x0102030405060708));
    simple!("ILUInt64Tag", ILUInt64Tag, V::U64, 9, (0, 0), (1 << 63, 1 << 63), (0x0102030405060708, 0x0102030405060708), (u64::MAX, u64::MAX));
    simple!("ILILInt64Tag", ILILInt64Tag, V::Int, 10, (0, 0), (0xF7, 0xF7), (0xF8, 0xF8), (u64::MAX, u64::MAX));
    simple!("ILSignedILInt64Tag", ILSignedILInt64Tag, V::SInt, 14, (0, 0), (-124, -124), (124, 124), (i64::MIN, i64::MIN));
    simple!("ILBin32Tag", ILBin32Tag, V::F32, 11, (0.0, 0), (-0.0, 0x80000000), (f32::from_bits(0x7FA00001), 0x7FA00001), (1.5, 0x3FC00000));
    simple!("ILBin64Tag", ILBin64Tag, V::F64, 12, (0.0, 0), (-0.0, 1 << 63), (f64::from_bits(0xFFF4000000000001), 0xFFF4000000000001), (1.5, 0x3FF8000000000000));
    {
        let mut m = Machine::new("ILNullTag");
        m.ctor("new", 0, V::Null, ILNullTag::new);
        m.ctor("default", 0, V::Null, ILNullTag::default);
        m.ctor("with_id", ID, V::Null, || ILNullTag::with_id(ID));
        m.ctor("default_with_id", 247, V::Null, || ILNullTag::default_with_id(247));
        m.decode(V::Null);
        out.push(m);
    }
    {
        let q = |k: u8| -> [u8; 16] { core::array::from_fn(|i| k.wrapping_mul(i as u8 + 1)) };
        let mut m = Machine::new("ILBin128Tag");
        m.ctor("new", 13, V::F128([0; 16]), ILBin128Tag::new);
        m.ctor("default", 13, V::F128([0; 16]), ILBin128Tag::default);
        m.ctor("with_value", 13, V::F128(q(3)), move || ILBin128Tag::with_value(&q(3)));
        m.ctor("with_id", ID, V::F128([0; 16]), || ILBin128Tag::with_id(ID));
        m.ctor("default_with_id", 247, V::F128([0; 16]), || ILBin128Tag::default_with_id(247));
        m.ctor("with_id_value", ID, V::F128(q(7)), move || ILBin128Tag::with_id_value(ID, &q(7)));
        for k in [0, 1, 0xFF] {
            m.op(format!("set_value({})", k), move |t, m| {
                at::<ILBin128Tag>(t).set_value(&q(k));
                *m = V::F128(q(k));
            });
        }
        m.decode(V::F128(q(5)));
        out.push(m);
    }
    // Byte vectors.
    let vec_ops: Vec<(&'static str, fn(&mut Vec<u8>))> = vec![
        ("push(7)", |v| v.push(7)),
        ("clear()", |v| v.clear()),
        ("extend(250 x 9)", |v| v.extend(vec![9; 250])),
        ("truncate(1)", |v| v.truncate(1)),
        ("first = 0xFF", |v| if let Some(x) = v.first_mut() { *x = 0xFF }),
    ];
    macro_rules! bytes {
        ($m:ident, $ty:ident, $var:path) => {
            for (n, f) in vec_ops.clone() {
                $m.op(format!("mut_value().{}", n), move |t, m| {
                    f(at::<$ty>(t).mut_value());
                    if let $var(v) = m { f(v) }
                });
            }
            $m.decode($var(vec![1, 2, 3]));
            $m.decode($var(vec![]));
        };
    }
    {
        let mut m = Machine::new("ILByteArrayTag");
        m.ctor("new", 16, V::Bytes(vec![]), ILByteArrayTag::new);
        m.ctor("default", 16, V::Bytes(vec![]), ILByteArrayTag::default);
        m.ctor("with_value", 16, V::Bytes(vec![5, 6]), || ILByteArrayTag::with_value(&[5, 6]));
        m.ctor("with_capacity", 16, V::Bytes(vec![]), || ILByteArrayTag::with_capacity(300));
        bytes!(m, ILByteArrayTag, V::Bytes);
        out.push(m);
    }
    {
        let mut m = Machine::new("ILBigIntTag");
        m.ctor("new", 18, V::BigInt(vec![]), ILBigIntTag::new);
        m.ctor("default", 18, V::BigInt(vec![]), ILBigIntTag::default);
        m.ctor("with_value", 18, V::BigInt(vec![0xFF, 6]), || ILBigIntTag::with_value(&[0xFF, 6]));
        bytes!(m, ILBigIntTag, V::BigInt);
        out.push(m);
    }
    {
        let mut m = Machine::new("ILRawTag");
        m.ctor("new", 32, V::Raw(vec![]), || ILRawTag::new(32));
        m.ctor("with_capacity", 16, V::Raw(vec![]), || ILRawTag::with_capacity(16, 300));
        m.ctor("with_value", u64::MAX, V::Raw(vec![0xFF, 6]), || ILRawTag::with_value(u64::MAX, &[0xFF, 6]));
        m.ctor("default_with_id", ID, V::Raw(vec![]), || ILRawTag::default_with_id(ID));
        bytes!(m, ILRawTag, V::Raw);
        for x in [&[][..], &[1], &[2; 248]] {
            m.op(format!("set_value({} bytes)", x.len()), move |t, m| {
                at::<ILRawTag>(t).set_value(x);
                *m = V::Raw(x.to_vec());
            });
        }
        out.push(m);
    }
    {
        let mut m = Machine::new("ILBigDecTag");
        m.ctor("new", 19, V::BigDec(0, vec![]), ILBigDecTag::new);
        m.ctor("default", 19, V::BigDec(0, vec![]), ILBigDecTag::default);
        m.ctor("with_value", 19, V::BigDec(-5, vec![1, 2]), || ILBigDecTag::with_value(-5, &[1, 2]));
        m.ctor("with_id", ID, V::BigDec(0, vec![]), || ILBigDecTag::with_id(ID));
        m.ctor("default_with_id", 247, V::BigDec(0, vec![]), || ILBigDecTag::default_with_id(247));
        m.ctor("with_id_value", ID, V::BigDec(i32::MAX, vec![3]), || ILBigDecTag::with_id_value(ID, i32::MAX, &[3]));
        for (n, f) in vec_ops.clone() {
            m.op(format!("mut_value().{}", n), move |t, m| {
                f(at::<ILBigDecTag>(t).mut_value());
                if let V::BigDec(_, v) = m { f(v) }
            });
        }
        for x in [0, -1, i32::MIN, 0x01020304] {
            m.op(format!("set_scale({})", x), move |t, m| {
                at::<ILBigDecTag>(t).set_scale(x);
                if let V::BigDec(y, _) = m { *y = x }
            });
        }
        m.decode(V::BigDec(9, vec![8, 7, 6]));
        m.decode(V::BigDec(-9, vec![]));
        out.push(m);
    }
    {
        let mut m = Machine::new("ILStringTag");
        m.ctor("new", 17, s(""), ILStringTag::new);
        m.ctor("default", 17, s(""), ILStringTag::default);
        m.ctor("with_value", 17, s("a\u{e9}"), || ILStringTag::with_value("a\u{e9}"));
        m.ctor("with_id", ID, s(""), || ILStringTag::with_id(ID));
        m.ctor("default_with_id", 247, s(""), || ILStringTag::default_with_id(247));
        m.ctor("with_id_value", ID, s("\0"), || ILStringTag::with_id_value(ID, "\0"));
        for x in ["", "\u{1F600}", "longer than the others by far", "x"] {
            m.op(format!("set_value({:?})", x), move |t, m| {
                at::<ILStringTag>(t).set_value(x);
                *m = s(x);
            });
        }
        let fs: Vec<(&'static str, fn(&mut String))> = vec![("push('\u{e9}')", |v| v.push('\u{e9}')), ("clear()", |v| v.clear()), ("insert(0, 'z')", |v| v.insert(0, 'z')), ("push_str(250)", |v| v.push_str(&"q".repeat(250)))];
        for (n, f) in fs {
            m.op(format!("mut_value().{}", n), move |t, m| {
                f(at::<ILStringTag>(t).mut_value());
                if let V::Str(v) = m { f(v) }
            });
        }
        m.decode(s("dec\u{e9}"));
        m.decode(s(""));
        out.push(m);
    }
    macro_rules! ints {
        ($name:literal, $ty:ident, $var:path, $id:literal) => {{
            let mut m = Machine::new($name);
            m.ctor("new", $id, $var(vec![]), $ty::new);
            m.ctor("default", $id, $var(vec![]), $ty::default);
            m.ctor("with_value", $id, $var(vec![1, 0xF8]), || $ty::with_value(&[1, 0xF8]));
            m.ctor("with_id", ID, $var(vec![]), || $ty::with_id(ID));
            m.ctor("default_with_id", 247, $var(vec![]), || $ty::default_with_id(247));
            m.ctor("with_id_value", ID, $var(vec![u64::MAX]), || $ty::with_id_value(ID, &[u64::MAX]));
            for x in [vec![], vec![5u64], vec![0xF7, 0xF8, 0x1F8, 0], vec![1; 248]] {
                m.op(format!("set_value({} elements)", x.len()), move |t, m| {
                    at::<$ty>(t).set_value(&x);
                    *m = $var(x.clone());
                });
            }
            let fs: Vec<(&'static str, fn(&mut Vec<u64>))> = vec![("push(0x100F8)", |v| v.push(0x100F8)), ("clear()", |v| v.clear()), ("pop()", |v| { v.pop(); }), ("first = 2", |v| if let Some(x) = v.first_mut() { *x = 2 })];
            for (n, f) in fs {
                m.op(format!("mut_value().{}", n), move |t, m| {
                    f(at::<$ty>(t).mut_value());
                    if let $var(v) = m { f(v) }
                });
            }
            m.decode($var(vec![4, 5, 1 << 40]));
            m.decode($var(vec![]));
            out.push(m);
        }};
    }
    ints!("ILILIntArrayTag", ILILIntArrayTag, V::Ints, 20);
    ints!("ILOIDTag", ILOIDTag, V::Oid, 25);
    macro_rules! tags {
        ($name:literal, $ty:ident, $var:path, $id:literal) => {{
            let mut m = Machine::new($name);
            m.ctor("new", $id, $var(vec![]), $ty::new);
            m.ctor("default", $id, $var(vec![]), $ty::default);
            m.ctor("with_id", ID, $var(vec![]), || $ty::with_id(ID));
            m.ctor("default_with_id", 247, $var(vec![]), || $ty::default_with_id(247));
            for x in [t(V::Null), t(V::Int(0xF7)), t(V::Seq(vec![t(s("in"))]))] {
                m.op(format!("mut_value().push({:?})", x), move |t, m| {
                    at::<$ty>(t).mut_value().push(build(&x));
                    if let $var(v) = m { v.push(x.clone()) }
                });
            }
            m.op("mut_value().pop()", |t, m| {
                at::<$ty>(t).mut_value().pop();
                if let $var(v) = m { v.pop(); }
            });
            m.op("mut_value().clear()", |t, m| {
                at::<$ty>(t).mut_value().clear();
                if let $var(v) = m { v.clear(); }
            });
            m.op("mut_value().insert(0, ..)", |t_, m| {
                at::<$ty>(t_).mut_value().insert(0, build(&t(s("0"))));
                if let $var(v) = m { v.insert(0, t(s("0"))); }
            });
            m.op("mut_value().reverse()", |t, m| {
                at::<$ty>(t).mut_value().reverse();
                if let $var(v) = m { v.reverse(); }
            });
            // Mutation of an element in place.
            m.op("every integer inside += 1", |t, m| {
                for x in at::<$ty>(t).mut_value() {
                    if let Some(y) = x.as_mut_any().downcast_mut::<ILILInt64Tag>() { let v = y.value(); y.set_value(v.wrapping_add(1)); }
                }
                if let $var(v) = m { for x in v { if let V::Int(y) = &mut x.v { *y = y.wrapping_add(1) } } }
            });
            m.op("every sequence inside grows", |t_, m| {
                for x in at::<$ty>(t_).mut_value() {
                    if let Some(y) = x.as_mut_any().downcast_mut::<ILTagSeqTag>() { y.mut_value().push(Box::new(ILUInt8Tag::with_value(5))); }
                }
                if let $var(v) = m { for x in v { if let V::Seq(y) = &mut x.v { y.push(t(V::U8(5))) } } }
            });
            m.decode($var(vec![t(V::Int(1)), t(s("d"))]));
            m.decode($var(vec![]));
            out.push(m);
        }};
    }
    tags!("ILTagSeqTag", ILTagSeqTag, V::Seq, 22);
    tags!("ILTagArrayTag", ILTagArrayTag, V::Arr, 21);
    {
        let mut m = Machine::new("ILRangeTag");
        m.ctor("new", 23, V::Range(0, 0), ILRangeTag::new);
        m.ctor("default", 23, V::Range(0, 0), ILRangeTag::default);
        m.ctor("with_value", 23, V::Range(0x1F8, 7), || ILRangeTag::with_value(0x1F8, 7));
        m.ctor("with_id", ID, V::Range(0, 0), || ILRangeTag::with_id(ID));
        m.ctor("default_with_id", 247, V::Range(0, 0), || ILRangeTag::default_with_id(247));
        m.ctor("with_id_value", ID, V::Range(u64::MAX, 0xFFFF), || ILRangeTag::with_id_value(ID, u64::MAX, 0xFFFF));
        for x in [0, 0xF8, 7, u64::MAX] {
            m.op(format!("set_start({})", x), move |t, m| {
                at::<ILRangeTag>(t).set_start(x);
                if let V::Range(a, _) = m { *a = x }
            });
        }
        for x in [0, 0x0102, 7, 0xFFFF] {
            m.op(format!("set_count({})", x), move |t, m| {
                at::<ILRangeTag>(t).set_count(x);
                if let V::Range(_, a) = m { *a = x }
            });
        }
        for (x, y) in [(1, 2), (0x100F8, 0), (2, 1)] {
            m.op(format!("set_value({}, {})", x, y), move |t, m| {
                at::<ILRangeTag>(t).set_value(x, y);
                *m = V::Range(x, y);
            });
        }
        m.decode(V::Range(3, 4));
        out.push(m);
    }
    {
        let mut m = Machine::new("ILVersionTag");
        m.ctor("new", 24, V::Ver([0; 4]), ILVersionTag::new);
        m.ctor("default", 24, V::Ver([0; 4]), ILVersionTag::default);
        m.ctor("with_value", 24, V::Ver([1, 2, 3, 4]), || ILVersionTag::with_value(1, 2, 3, 4));
        m.ctor("with_id", ID, V::Ver([0; 4]), || ILVersionTag::with_id(ID));
        m.ctor("default_with_id", 247, V::Ver([0; 4]), || ILVersionTag::default_with_id(247));
        m.ctor("with_id_value", ID, V::Ver([-1, i32::MIN, i32::MAX, 5]), || ILVersionTag::with_id_value(ID, -1, i32::MIN, i32::MAX, 5));
        m.ctor("with_value_from_slice", 24, V::Ver([9, 8, 7, 6]), || ILVersionTag::with_value_from_slice(&[9, 8, 7, 6]));
        m.ctor("with_id_value_from_slice", ID, V::Ver([6, 7, 8, 9]), || ILVersionTag::with_id_value_from_slice(ID, &[6, 7, 8, 9]));
        type Setter = fn(&mut ILVersionTag, i32);
        let set: [(&str, Setter); 4] = [("set_major", ILVersionTag::set_major), ("set_minor", ILVersionTag::set_minor), ("set_revision", ILVersionTag::set_revision), ("set_build", ILVersionTag::set_build)];
        for (i, (n, f)) in set.into_iter().enumerate() {
            for x in [10 + i as i32, -1] {
                m.op(format!("{}({})", n, x), move |t, m| {
                    f(at::<ILVersionTag>(t), x);
                    if let V::Ver(a) = m { a[i] = x }
                });
            }
        }
        m.op("set_value(21, 22, 23, 24)", |t, m| {
            at::<ILVersionTag>(t).set_value(21, 22, 23, 24);
            *m = V::Ver([21, 22, 23, 24]);
        });
        m.op("set_value_from_slice([31, 32, 33, 34])", |t, m| {
            at::<ILVersionTag>(t).set_value_from_slice(&[31, 32, 33, 34]);
            *m = V::Ver([31, 32, 33, 34]);
        });
        m.decode(V::Ver([41, 42, 43, 44]));
        out.push(m);
    }
    {
        let mut m = Machine::new("ILDictTag");
        m.ctor("new", 30, V::Dict(Default::default()), ILDictTag::new);
        m.ctor("default", 30, V::Dict(Default::default()), ILDictTag::default);
        m.ctor("with_id", ID, V::Dict(Default::default()), || ILDictTag::with_id(ID));
        m.ctor("default_with_id", 247, V::Dict(Default::default()), || ILDictTag::default_with_id(247));
        for (k, x) in [("b", t(V::Int(0xF7))), ("a", t(V::Null)), ("b", t(V::Seq(vec![])))] {
            m.op(format!("insert({:?}, {:?})", k, x), move |t, m| {
                let old = at::<ILDictTag>(t).insert(k, build(&x)).map(|y| extract(y.as_ref()).expect("kind"));
                if let V::Dict(v) = m { assert_eq!(old, v.insert(k.into(), x.clone()), "value handed back by insert({:?})", k); }
            });
        }
        m.op("mut_value().remove(b)", |t, m| {
            at::<ILDictTag>(t).mut_value().remove("b");
            if let V::Dict(v) = m { v.remove("b"); }
        });
        m.op("mut_value().clear()", |t, m| {
            at::<ILDictTag>(t).mut_value().clear();
            if let V::Dict(v) = m { v.clear(); }
        });
        m.op("integers inside += 1", |t, m| {
            for x in at::<ILDictTag>(t).mut_value().values_mut() {
                if let Some(y) = x.as_mut_any().downcast_mut::<ILILInt64Tag>() { let v = y.value(); y.set_value(v.wrapping_add(1)); }
            }
            if let V::Dict(v) = m { for x in v.values_mut() { if let V::Int(y) = &mut x.v { *y = y.wrapping_add(1) } } }
        });
        m.decode(dict(&[("c", t(V::Int(3)))]).v);
        out.push(m);
    }
    {
        let mut m = Machine::new("ILStrDictTag");
        m.ctor("new", 31, V::SDict(Default::default()), ILStrDictTag::new);
        m.ctor("default", 31, V::SDict(Default::default()), ILStrDictTag::default);
        m.ctor("with_id", ID, V::SDict(Default::default()), || ILStrDictTag::with_id(ID));
        m.ctor("default_with_id", 247, V::SDict(Default::default()), || ILStrDictTag::default_with_id(247));
        for (k, x) in [("b", "x"), ("a", ""), ("b", "\u{e9}longer")] {
            m.op(format!("insert({:?}, {:?})", k, x), move |t, m| {
                let old = at::<ILStrDictTag>(t).insert(k, x);
                if let V::SDict(v) = m { assert_eq!(old, v.insert(k.into(), x.into()), "value handed back by insert({:?})", k); }
            });
        }
        m.op("mut_value().remove(b)", |t, m| {
            at::<ILStrDictTag>(t).mut_value().remove("b");
            if let V::SDict(v) = m { v.remove("b"); }
        });
        m.op("mut_value().clear()", |t, m| {
            at::<ILStrDictTag>(t).mut_value().clear();
            if let V::SDict(v) = m { v.clear(); }
        });
        m.op("texts inside grow", |t, m| {
            for x in at::<ILStrDictTag>(t).mut_value().values_mut() { x.push('!') }
            if let V::SDict(v) = m { for x in v.values_mut() { x.push('!') } }
        });
        m.decode(sdict(&[("c", "d")]).v);
        out.push(m);
    }
    out
}
