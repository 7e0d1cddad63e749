//! C26: shared factories and tags are safe to use concurrently and reentrantly.
//!
//! Every execution runs in a process of its own, under the controlled scheduler.
//! The expected result of an operation is what it gives alone in a fresh process.
use super::docs::*;
use crate::alloc;
use crate::bridge::*;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::io::{LimitedReader, Reader, Writer};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::raw::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use sched::{End, Kind};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Mutex};

type IoResult<X> = il2_iltags::io::Result<X>;

// ---------------------------------------------------------------------------
// Callbacks: every one is a scheduling point and may start another operation.
thread_local! {
    static COUNT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    /// The scheduling point is that of a callback.
    static HERE: Cell<bool> = const { Cell::new(false) };
    /// The number of the thread in the spaces with deep documents.
    static WHO: Cell<usize> = const { Cell::new(0) };
    #[allow(clippy::type_complexity)]
    static INNER: RefCell<Vec<(usize, Box<dyn FnOnce()>)>> = const { RefCell::new(Vec::new()) };
}
fn cb() {
    HERE.with(|h| h.set(true));
    sched::point();
    HERE.with(|h| h.set(false));
    CALLS.with(|c| c.set(c.get() + 1));
    let n = COUNT.with(|c| c.get());
    if n == usize::MAX {
        return;
    }
    if n > 0 {
        COUNT.with(|c| c.set(n - 1));
        return;
    }
    let next = INNER.with(|i| i.borrow_mut().pop());
    COUNT.with(|c| c.set(usize::MAX));
    if let Some((_, f)) = next {
        let k = INNER.with(|i| i.borrow().last().map(|x| x.0));
        COUNT.with(|c| c.set(k.unwrap_or(usize::MAX)));
        f();
    }
}
struct Rd<'a> {
    r: ByteArrayReader<'a>,
    calls: usize,
    fail: usize,
    boom: bool,
}
impl<'a> Rd<'a> {
    fn new(b: &'a [u8]) -> Self {
        Rd { r: ByteArrayReader::new(b), calls: 0, fail: usize::MAX, boom: false }
    }
    fn failing(b: &'a [u8], fail: usize) -> Self {
        Rd { r: ByteArrayReader::new(b), calls: 0, fail, boom: false }
    }
    fn at(&mut self) -> IoResult<()> {
        cb();
        self.calls += 1;
        if self.calls > self.fail {
            if self.boom {
                panic!("source or sink");
            }
            return Err(il2_iltags::io::ErrorKind::IOError(std::io::ErrorKind::BrokenPipe.into()));
        }
        Ok(())
    }
}
impl<'a> Reader for Rd<'a> {
    fn read(&mut self) -> IoResult<u8> {
        self.at()?;
        self.r.read()
    }
    fn read_all(&mut self, b: &mut [u8]) -> IoResult<()> {
        self.at()?;
        self.r.read_all(b)
    }
    fn skip(&mut self, n: usize) -> IoResult<()> {
        self.at()?;
        self.r.skip(n)
    }
}
struct Wr {
    b: Vec<u8>,
    calls: usize,
    fail: usize,
    boom: bool,
}
impl Wr {
    fn new() -> Self {
        Wr { b: vec![], calls: 0, fail: usize::MAX, boom: false }
    }
    fn at(&mut self) -> IoResult<()> {
        cb();
        self.calls += 1;
        if self.calls > self.fail {
            if self.boom {
                panic!("source or sink");
            }
            return Err(il2_iltags::io::ErrorKind::IOError(std::io::ErrorKind::BrokenPipe.into()));
        }
        Ok(())
    }
}
impl Writer for Wr {
    fn write(&mut self, v: u8) -> IoResult<()> {
        self.at()?;
        self.b.push(v);
        Ok(())
    }
    fn write_all(&mut self, b: &[u8]) -> IoResult<()> {
        self.at()?;
        self.b.extend_from_slice(b);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}
/// A custom tag. 66 as first byte makes it fail, 77 panic when written; 67 and 78
/// when read; 79 when measured.
struct Leaf(u64, Vec<u8>);
impl ILTag for Leaf {
    fn id(&self) -> u64 {
        self.0
    }
    fn value_size(&self) -> u64 {
        cb();
        if self.1.first() == Some(&79) {
            panic!("custom tag");
        }
        self.1.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        cb();
        match self.1.first() {
            Some(66) => return Err(ErrorKind::UnableToSerialize),
            Some(77) => panic!("custom tag"),
            _ => {}
        }
        w.write_all(&self.1)?;
        cb();
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        cb();
        self.1 = vec![0; n];
        r.read_all(&mut self.1)?;
        cb();
        match self.1.first() {
            Some(67) => Err(ErrorKind::CorruptedData),
            Some(78) => panic!("custom tag"),
            _ => Ok(()),
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}
#[derive(Default)]
struct Load(Vec<u8>);
impl ILTagPayload for Load {
    fn serialized_size(&self) -> usize {
        cb();
        self.0.len()
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        cb();
        w.write_all(&self.0)?;
        Ok(())
    }
    fn deserialize(&mut self, f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        cb();
        // A nested tag inside, read through the factory handed over.
        let mut l = LimitedReader::new(r, n);
        let inner = f.deserialize(&mut l)?;
        self.0 = inner.to_bytes()?;
        limited_reader_ensure_empty(&l, ErrorKind::CorruptedData)
    }
}
type LoadTag = ILGenericPayloadTag<Load>;
struct LeafCreator;
struct BoomCreator;
impl ILTagCreator for BoomCreator {
    fn create_empty_tag(&self, _: u64) -> Tag {
        cb();
        panic!("creator")
    }
}
impl ILTagCreator for LeafCreator {
    fn create_empty_tag(&self, id: u64) -> Tag {
        cb();
        Box::new(Leaf(id, vec![]))
    }
}

// ---------------------------------------------------------------------------
// What the threads share.
struct Sh {
    f: ILStandardTagFactory,
    strict: ILStandardTagFactory,
    tags: Vec<Tag>,
    twins: Vec<Tag>,
    bad: Tag,
    boom: Tag,
    unmeasured: Tag,
    big: Vec<Tag>,
    big_twins: Vec<Tag>,
}
/// Large values: beyond any buffer of a fixed or remembered size.
fn big_docs3() -> Vec<T> {
    use crate::alpha::fill;
    vec![
        t(V::Seq(vec![t(V::Bytes(fill(5000, 1))), raw(90, &fill(1100, 2)), t(V::Str("\u{e9}".repeat(35_000))), raw(0x1F8, &fill(300, 3)), t(V::I8(-1))])),
        t(V::Arr((0..40).map(|i| if i % 4 == 0 { t(V::Seq(vec![t(V::Int(i * 100))])) } else { dict(&[(&"k".repeat(i as usize * 9), t(V::U8(i as u8)))]) }).collect())),
        chain(40, &[0, 1, 2], raw(90, &fill(20, 4)), true),
    ]
}
fn docs6() -> Vec<T> {
    vec![
        t(V::Seq(vec![t(V::I8(-3)), raw(90, &[5, 6]), dict(&[("k", t(V::Int(300)))])])),
        t(V::Arr(vec![t(V::Int(1 << 40)), t(V::Bytes(vec![1, 2, 3])), t(V::Seq(vec![t(V::Null), t(V::Bool(true))]))])),
        dict(&[("a", t(V::Str("x".into()))), ("b", t(V::Arr(vec![t(V::U16(7))])))]),
        t(V::Seq(vec![raw(91, &enc(&t(V::Str("pq".into())))), t(V::SInt(-1000))])),
        t(V::Str("h\u{e9}llo".into())),
        sdict(&[("k", "v"), ("kk", "w")]),
        t(V::Ints(vec![1, 250, 70000])),
    ]
}
/// The tag for a document, ids 90 and 91 as the custom kinds.
fn made(x: &T) -> Tag {
    match &x.v {
        V::Raw(b) if x.id == 90 => Box::new(Leaf(90, b.clone())),
        V::Raw(b) if x.id == 91 => {
            let mut y = LoadTag::new(91);
            y.mut_payload().0 = b.clone();
            Box::new(y)
        }
        V::Seq(a) => {
            let mut y = ILTagSeqTag::with_id(x.id);
            a.iter().for_each(|e| y.mut_value().push(made(e)));
            Box::new(y)
        }
        V::Arr(a) => {
            let mut y = ILTagArrayTag::with_id(x.id);
            a.iter().for_each(|e| y.mut_value().push(made(e)));
            Box::new(y)
        }
        V::Dict(m) => {
            let mut y = ILDictTag::with_id(x.id);
            m.iter().for_each(|(k, e)| {
                y.insert(k, made(e));
            });
            Box::new(y)
        }
        _ => build(x),
    }
}
fn factory(strict: bool) -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(strict);
    if !strict {
        f.engine().register(90, Box::new(LeafCreator));
        f.engine().register(91, Box::new(ILDefaultWithIdTagCreator::<LoadTag>::default()));
        f.engine().register(93, Box::new(BoomCreator));
    }
    f
}
impl Sh {
    fn new(g: Vec<T>) -> Sh {
        let d = docs6();
        Sh {
            f: factory(false),
            strict: factory(true),
            tags: d.iter().map(made).collect(),
            twins: d.iter().map(made).collect(),
            bad: made(&t(V::Seq(vec![t(V::I8(1)), raw(90, &[66]), t(V::I8(1))]))),
            boom: made(&t(V::Seq(vec![t(V::I8(1)), raw(90, &[77]), t(V::I8(1))]))),
            unmeasured: made(&t(V::Seq(vec![t(V::I8(1)), raw(90, &[79]), t(V::I8(1))]))),
            big: g.iter().map(made).collect(),
            big_twins: g.iter().map(made).collect(),
        }
    }
}

enum Out {
    Text(String),
    Bytes(Vec<u8>),
    Tag(Tag),
    Err(String),
}
fn shape(x: &dyn ILTag) -> String {
    let a = x.as_any();
    let list = |v: &[Tag]| v.iter().map(|e| shape(e.as_ref())).collect::<Vec<_>>().join(" ");
    if let Some(s) = a.downcast_ref::<ILTagSeqTag>() {
        format!("seq[{}]", list(s.value()))
    } else if let Some(s) = a.downcast_ref::<ILTagArrayTag>() {
        format!("array[{}]", list(s.value()))
    } else if let Some(s) = a.downcast_ref::<ILDictTag>() {
        let mut k: Vec<_> = s.value().iter().map(|(k, e)| format!("{:?}: {}", k, shape(e.as_ref()))).collect();
        k.sort();
        format!("dict[{}]", k.join(" "))
    } else if let Some(l) = a.downcast_ref::<Leaf>() {
        format!("leaf {} {:?}", l.0, l.1)
    } else if let Some(l) = a.downcast_ref::<LoadTag>() {
        format!("payload {} {:?}", x.id(), l.payload().0)
    } else {
        match extract(x) {
            Ok(y) => format!("{:?}", y),
            Err(m) => m,
        }
    }
}
/// Everything that can be seen of a result.
fn show(o: std::result::Result<Out, String>) -> String {
    match o {
        Err(m) => m,
        Ok(Out::Text(s)) => s,
        Ok(Out::Bytes(b)) => hex(&b),
        Ok(Out::Err(e)) => e,
        Ok(Out::Tag(x)) => format!("tag {} size {} bytes {}", shape(x.as_ref()), x.size(), match x.to_bytes() {
            Ok(b) => hex(&b),
            Err(e) => format!("{:?}", e),
        }),
    }
}
fn fail(e: ErrorKind) -> Out {
    Out::Err(sched::quiet(|| alloc::unhooked(|| format!("error {:?}", e))))
}
fn tag_or(r: Result<Tag>) -> Out {
    match r {
        Ok(x) => Out::Tag(x),
        Err(e) => fail(e),
    }
}
fn bytes_or(r: Result<Vec<u8>>) -> Out {
    match r {
        Ok(x) => Out::Bytes(x),
        Err(e) => fail(e),
    }
}
fn written(x: &dyn ILTag, at: usize) -> Out {
    let mut w = Wr::new();
    w.fail = at;
    match x.serialize(&mut w) {
        Ok(()) => Out::Bytes(w.b),
        Err(e) => fail(e),
    }
}

type OpFn = Arc<dyn Fn(&Sh) -> Out + Send + Sync>;
#[derive(Clone)]
struct Op {
    name: String,
    shared: bool,
    /// In the small alphabet, explored to a greater depth.
    core: bool,
    /// On large values: combined with fewer others.
    large: bool,
    f: OpFn,
}
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, core: bool, f: OpFn| v.push(Op { name, shared: true, core, large: false, f });
    let enc6: Vec<Vec<u8>> = docs6().iter().map(enc).collect();
    for i in [0usize, 1, 2, 3] {
        add(format!("size of shared tag {}", i), i == 0, Arc::new(move |s| Out::Text(s.tags[i].size().to_string())));
    }
    for i in [0usize, 1, 2, 3, 4] {
        add(format!("write shared tag {}", i), i == 0 || i == 2, Arc::new(move |s| written(s.tags[i].as_ref(), usize::MAX)));
    }
    for i in [0usize, 5, 6] {
        add(format!("bytes of shared tag {}", i), i == 6, Arc::new(move |s| bytes_or(s.tags[i].to_bytes())));
    }
    add("compare shared tags 0, equal".into(), true, Arc::new(|s| Out::Text(iltag_are_equal(s.tags[0].as_ref(), s.twins[0].as_ref()).to_string())));
    add("compare shared tags 4 and 5, different".into(), false, Arc::new(|s| Out::Text(iltag_are_equal(s.tags[4].as_ref(), s.tags[5].as_ref()).to_string())));
    add("compare a tag with itself".into(), false, Arc::new(|s| Out::Text(iltag_are_equal(s.tags[3].as_ref(), s.tags[3].as_ref()).to_string())));
    add("clone shared tag 2".into(), true, Arc::new(|s| tag_or(iltag_clone(s.tags[2].as_ref()))));
    for i in [0usize, 3] {
        add(format!("clone shared tag {} as the standard factory does", i), i == 3, Arc::new(move |s| tag_or(iltag_clone(s.tags[i].as_ref()))));
    }
    add("clone shared tag 0 with the shared factory".into(), true, Arc::new(|s| tag_or(iltag_clone_with_factory(&s.f, s.tags[0].as_ref()))));
    add("clone shared tag 0 with the strict factory".into(), false, Arc::new(|s| tag_or(iltag_clone_with_factory(&s.strict, s.tags[0].as_ref()))));
    for i in [0usize, 1, 2, 3, 4, 5] {
        let b = enc6[i].clone();
        add(format!("decode document {}", i), i == 0 || i == 3, Arc::new(move |s| tag_or(s.f.deserialize(&mut Rd::new(&b)))));
    }
    {
        let b = enc6[0].clone();
        add("decode document 0 strictly".into(), true, Arc::new(move |s| tag_or(s.strict.deserialize(&mut Rd::new(&b)))));
        let b = enc6[2].clone();
        add("decode document 2 strictly".into(), false, Arc::new(move |s| tag_or(s.strict.from_bytes(&b))));
        let b = enc6[1][..enc6[1].len() - 2].to_vec();
        add("decode a cut document".into(), true, Arc::new(move |s| tag_or(s.f.from_bytes(&b))));
        let b = enc6[0].clone();
        add("decode from a failing reader".into(), true, Arc::new(move |s| tag_or(s.f.deserialize(&mut Rd::failing(&b, 5)))));
        let b = enc(&t(V::Seq(vec![t(V::I8(1)), raw(90, &[67]), t(V::I8(1))])));
        add("decode a custom tag that fails".into(), false, Arc::new(move |s| tag_or(s.f.deserialize(&mut Rd::new(&b)))));
        let b = enc(&t(V::Seq(vec![t(V::I8(1)), raw(90, &[78]), t(V::I8(1))])));
        add("decode a custom tag that panics".into(), true, Arc::new(move |s| tag_or(s.f.deserialize(&mut Rd::new(&b)))));
        let b = enc6[2].clone();
        add("decode document 2 into an existing tag".into(), false, Arc::new(move |s| {
            let mut x = ILDictTag::new();
            x.insert("old", Box::new(ILNullTag::default()));
            match s.f.deserialize_into(&mut Rd::new(&b), &mut x) {
                Ok(()) => Out::Tag(Box::new(x)),
                Err(e) => fail(e),
            }
        }));
        let b = enc6[2].clone();
        add("decode document 2 into a tag of another id".into(), false, Arc::new(move |s| {
            let mut x = ILTagSeqTag::new();
            match s.f.deserialize_into(&mut Rd::new(&b), &mut x) {
                Ok(()) => Out::Tag(Box::new(x)),
                Err(e) => fail(e),
            }
        }));
        let b = vec![99, 2, 1, 2];
        add("decode an unknown tag".into(), false, Arc::new(move |s| tag_or(s.f.from_bytes(&b))));
        let b = vec![99, 2, 1, 2];
        add("decode an unknown tag strictly".into(), false, Arc::new(move |s| tag_or(s.strict.from_bytes(&b))));
    }
    add("write to a failing writer".into(), true, Arc::new(|s| written(s.tags[0].as_ref(), 4)));
    add("write a custom tag that fails".into(), false, Arc::new(|s| written(s.bad.as_ref(), usize::MAX)));
    add("bytes of a custom tag that fails".into(), false, Arc::new(|s| bytes_or(s.bad.to_bytes())));
    add("write a custom tag that panics".into(), true, Arc::new(|s| written(s.boom.as_ref(), usize::MAX)));
    add("bytes of a custom tag that panics".into(), false, Arc::new(|s| bytes_or(s.boom.to_bytes())));
    add("bytes of a custom tag that panics when measured".into(), false, Arc::new(|s| bytes_or(s.unmeasured.to_bytes())));
    add("size of a custom tag that panics when measured".into(), false, Arc::new(|s| Out::Text(s.unmeasured.size().to_string())));
    add("compare with a custom tag that panics".into(), false, Arc::new(|s| Out::Text(iltag_are_equal(s.tags[3].as_ref(), s.boom.as_ref()).to_string())));
    add("clone a custom tag that panics".into(), false, Arc::new(|s| tag_or(iltag_clone(s.boom.as_ref()))));
    add("clone a custom tag that fails".into(), false, Arc::new(|s| tag_or(iltag_clone_with_factory(&s.f, s.bad.as_ref()))));
    {
        let b = enc(&t(V::Seq(vec![t(V::I8(1)), raw(93, &[1])])));
        add("decode with a creator that panics".into(), false, Arc::new(move |s| tag_or(s.f.from_bytes(&b))));
        let b = enc6[0].clone();
        add("decode from a reader that panics".into(), false, Arc::new(move |s| tag_or(s.f.deserialize(&mut Rd { boom: true, ..Rd::failing(&b, 5) }))));
    }
    add("write to a writer that panics".into(), false, Arc::new(|s| {
        let mut w = Wr { fail: 4, boom: true, ..Wr::new() };
        let r = s.tags[0].serialize(&mut w);
        Out::Text(format!("{:?}", r.is_ok()))
    }));
    add("compare a tag that cannot be written".into(), false, Arc::new(|s| Out::Text(iltag_are_equal(s.bad.as_ref(), s.bad.as_ref()).to_string())));
    add("create tags".into(), false, Arc::new(|s| {
        let ids = [0u64, 5, 15, 16, 22, 30, 90, 91, 92];
        Out::Text(ids.iter().map(|i| match (s.f.create_tag(*i), s.strict.create_tag(*i)) {
            (a, b) => format!("{} {:?} {:?}", i, a.map(|x| shape(x.as_ref())), b.map(|x| shape(x.as_ref()))),
        }).collect::<Vec<_>>().join("; "))
    }));
    add("downcast shared tags".into(), false, Arc::new(|s| {
        Out::Text(s.tags.iter().map(|x| {
            format!(
                "{} {} {} {}",
                tag_downcast_ref::<ILTagSeqTag>(x.as_ref()).is_some(),
                tag_downcast_ref_with_id::<ILDictTag>(30, x.as_ref()).is_some(),
                tag_id_downcast_ref::<ILStringTag>(17, x.as_ref()).is_ok(),
                assert_tag_id_and_type::<ILTagArrayTag>(21, x.as_ref()).is_ok()
            )
        }).collect::<Vec<_>>().join("; "))
    }));
    // Operations that share nothing.
    let mut add = |name: &str, core: bool, f: OpFn| v.push(Op { name: name.into(), shared: false, core, large: false, f });
    add("new factory, its own kind for 90", true, Arc::new(|_| {
        let mut f = ILStandardTagFactory::new(false);
        let before = f.engine().register(90, Box::new(ILDefaultWithIdTagCreator::<ILBigDecTag>::default())).is_some();
        match f.deserialize(&mut Rd::new(&[22, 7, 90, 5, 0, 0, 0, 2, 6])) {
            Ok(x) => Out::Text(format!("{} {}", before, shape(x.as_ref()))),
            Err(e) => fail(e),
        }
    }));
    add("new factory without strings", false, Arc::new(|_| {
        let mut f = ILStandardTagFactory::new(true);
        let gone = f.engine().deregister(17).is_some();
        match f.from_bytes(&[17, 1, b'a']) {
            Ok(x) => Out::Text(format!("{} {}", gone, shape(x.as_ref()))),
            Err(e) => Out::Text(format!("{} {:?}", gone, e)),
        }
    }));
    add("new factory, new tag, measure, write, decode", true, Arc::new(|_| {
        let x = build(&dict(&[("a", t(V::Int(9))), ("zz", t(V::Seq(vec![t(V::Str("q".into()))])))]));
        let n = x.size();
        let b = match x.to_bytes() {
            Ok(b) => b,
            Err(e) => return fail(e),
        };
        match ILStandardTagFactory::new(false).from_bytes(&b) {
            Ok(y) => Out::Text(format!("{} {} {}", n, hex(&b), shape(y.as_ref()))),
            Err(e) => fail(e),
        }
    }));
    add("grow a tag between measurements", true, Arc::new(|_| {
        let mut x = ILTagSeqTag::new();
        let mut s = String::new();
        for i in 0..3u64 {
            x.mut_value().push(Box::new(ILILInt64Tag::with_value(i * 200)));
            s.push_str(&format!("{} {:?} ", x.size(), x.to_bytes().map(|b| hex(&b))));
        }
        Out::Text(s)
    }));
    add("ilint", false, Arc::new(|_| {
        let mut w = Wr::new();
        let mut s = String::new();
        for x in [0u64, 247, 248, 503, 504, 70000, u64::MAX] {
            let r = il2_iltags::ilint::encode(x, &mut w).is_ok();
            s.push_str(&format!("{} {} ", il2_iltags::ilint::encoded_size(x), r));
        }
        let mut r = Rd::new(&w.b);
        for _ in 0..7 {
            s.push_str(&format!("{:?} ", il2_iltags::ilint::decode(&mut r).ok()));
        }
        s.push_str(&format!("{:?}", il2_iltags::ilint::decode_from_bytes(&[249, 0]).is_err()));
        Out::Text(s + &hex(&w.b))
    }));
    add("values", false, Arc::new(|_| {
        use il2_iltags::io::data::*;
        let mut w = Wr::new();
        let ok = write_u16(0x1234, &mut w).is_ok() && write_f64(-0.5, &mut w).is_ok() && write_signed_ilint(-70000, &mut w).is_ok() && write_string("\u{e9}x", &mut w).is_ok();
        let mut r = Rd::new(&w.b);
        Out::Text(format!("{} {:?} {:?} {:?} {:?} {:?} {:?}", ok, hex(&w.b), read_u16(&mut r).ok(), read_f64(&mut r).ok(), read_signed_ilint(&mut r).ok(), read_string(&mut r, 3).ok(), read_string(&mut r, 1).is_err()))
    }));
    {
        let b: Vec<u8> = enc6.concat();
        add("scan", false, Arc::new(move |_| {
            let mut r = Rd::new(&b);
            let mut s = RawTagScanner::new(&mut r);
            let mut o = String::new();
            for _ in 0..20 {
                match s.next_tag() {
                    Ok(Some(e)) => o.push_str(&format!("{} {} {} {} ", e.id(), e.offset(), e.size(), e.value_size())),
                    Ok(None) => {
                        o.push_str("end");
                        break;
                    }
                    Err(e) => {
                        o.push_str(&format!("{:?}", e));
                        break;
                    }
                }
            }
            Out::Text(o)
        }));
    }
    // Large values.
    let mut add = |name: String, f: OpFn| v.push(Op { name, shared: true, core: false, large: true, f });
    for i in 0..3usize {
        let b = enc(&big_docs3()[i]);
        add(format!("write large tag {}", i), Arc::new(move |s| written(s.big[i].as_ref(), usize::MAX)));
        add(format!("decode large document {}", i), Arc::new(move |s| tag_or(s.f.deserialize(&mut Rd::new(&b)))));
    }
    add("clone large tag 0".into(), Arc::new(|s| tag_or(iltag_clone_with_factory(&s.f, s.big[0].as_ref()))));
    add("compare large tags 0, equal".into(), Arc::new(|s| Out::Text(iltag_are_equal(s.big[0].as_ref(), s.big_twins[0].as_ref()).to_string())));
    add("compare large tags 0 and 1, different".into(), Arc::new(|s| Out::Text(iltag_are_equal(s.big[0].as_ref(), s.big[1].as_ref()).to_string())));
    add("sizes and bytes of large tags 1 and 2".into(), Arc::new(|s| {
        let n = s.big[1].size() + s.big[2].size();
        match (s.big[1].to_bytes(), s.big[2].to_bytes()) {
            (Ok(a), Ok(b)) => Out::Text(format!("{} {} {}", n, hex(&a), hex(&b))),
            o => Out::Text(format!("{} {:?}", n, o)),
        }
    }));
    {
        let b = enc(&big_docs3()[0]);
        let b = b[..b.len() - 400].to_vec();
        add("decode a cut large document".into(), Arc::new(move |s| tag_or(s.f.from_bytes(&b))));
    }
    add("write a large tag to a failing writer".into(), Arc::new(|s| written(s.big[1].as_ref(), 60)));
    v
}

// ---------------------------------------------------------------------------
struct World {
    ops: Vec<Op>,
    /// What the operations on large values use.
    big: Box<dyn Fn() -> Vec<T> + Send + Sync>,
    alone: Vec<String>,
    calls: Vec<usize>,
}
fn run_op(w: &World, i: usize, sh: &Sh) -> std::result::Result<Out, String> {
    guarded(|| (w.ops[i].f)(sh))
}
fn sh_for(w: &World, used: &[usize]) -> Option<Sh> {
    if used.iter().any(|i| w.ops[*i].shared) {
        Some(Sh::new(if used.iter().any(|i| w.ops[*i].large) { (w.big)() } else { vec![] }))
    } else {
        None
    }
}
fn as_sh(sh: &Option<Sh>) -> &Sh {
    match sh {
        Some(s) => s,
        // Never used by operations that share nothing.
        None => {
            static EMPTY: Mutex<Option<&'static Sh>> = Mutex::new(None);
            let mut e = EMPTY.lock().unwrap();
            if e.is_none() {
                // Reserved, not built: building it would run the code under test.
                let b: Box<std::mem::MaybeUninit<Sh>> = Box::new(std::mem::MaybeUninit::uninit());
                *e = Some(unsafe { &*(Box::leak(b).as_ptr()) });
            }
            e.unwrap()
        }
    }
}
fn world(ops: Vec<Op>, big: impl Fn() -> Vec<T> + Send + Sync + 'static) -> World {
    let mut w = World { ops, big: Box::new(big), alone: vec![], calls: vec![] };
    for i in 0..w.ops.len() {
        let r = in_process(20, || {
            let sh = sh_for(&w, &[i]);
            let sh = as_sh(&sh);
            CALLS.with(|c| c.set(0));
            let o = run_op(&w, i, sh);
            let n = CALLS.with(|c| c.get()) as u64;
            let mut b = n.to_le_bytes().to_vec();
            b.extend(show(o).into_bytes());
            b
        });
        match r {
            Ok(b) => {
                w.calls.push(u64::from_le_bytes(b[..8].try_into().unwrap()) as usize);
                w.alone.push(String::from_utf8_lossy(&b[8..]).into_owned());
            }
            Err(m) => {
                w.calls.push(0);
                w.alone.push(m);
            }
        }
    }
    w
}

struct Slot(Mutex<Vec<(usize, String, String)>>);
impl Slot {
    fn put(&self, op: usize, place: &str, o: std::result::Result<Out, String>) {
        // Shown at once: rendering runs the code under test, so without points.
        let s = sched::quiet(|| alloc::unhooked(|| guarded(|| show(o)).unwrap_or_else(|m| m)));
        self.0.lock().unwrap().push((op, place.to_string(), s));
    }
}
/// The threads, each a list of operations; every result compared with the one alone.
fn concurrently(ch: &Ch, w: &World, plan: &[Vec<usize>], points: bool) -> R {
    let used: Vec<usize> = plan.concat();
    let sh = sh_for(w, &used);
    let sh = as_sh(&sh);
    let slot = Slot(Mutex::new(vec![]));
    let late: Vec<Mutex<Vec<(usize, std::result::Result<Out, String>)>>> = plan.iter().map(|_| Mutex::new(vec![])).collect();
    let last = Cell::new(0u64);
    let decide = |k: Kind, n: usize| -> usize {
        let c = match k {
            Kind::Free => ch.choose(n),
            Kind::Preempt => ch.dev(n),
        };
        if c > 0 {
            ch.seen(c as u64);
        }
        last.set(last.get() + 1);
        c
    };
    let fs: Vec<Box<dyn FnOnce() + Send + '_>> = plan
        .iter()
        .enumerate()
        .map(|(k, l)| {
            let late = &late[k];
            let l = l.clone();
            Box::new(move || {
                for i in l {
                    if points {
                        alloc::set_hook(Some(sched::point));
                    }
                    let o = run_op(w, i, sh);
                    alloc::set_hook(None);
                    sched::quiet(|| late.lock().unwrap().push((i, o)));
                }
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    let r = sched::threads(fs, &decide);
    let names = || plan.iter().map(|l| format!("[{}]", l.iter().map(|i| w.ops[*i].name.as_str()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" with ");
    ch.say(|| format!("threads {}: {} points, {} switches", names(), r.points, r.switches));
    ensure!(r.end == End::Finished, "threads {}: {:?} after {} scheduling points", names(), r.end, r.points);
    for (k, l) in late.into_iter().enumerate() {
        for (i, o) in l.into_inner().unwrap() {
            slot.put(i, &format!("thread {}", k), o);
        }
    }
    ch.seen(r.points << 8 | r.switches);
    ch.sample(|| format!("{}: {} points, {} switches", names(), r.points, r.switches));
    check(ch, w, slot, &names())
}
fn check(ch: &Ch, w: &World, slot: Slot, what: &str) -> R {
    for (i, place, s) in slot.0.into_inner().unwrap() {
        ch.op();
        ch.say(|| format!("{} [{}]: {}", w.ops[i].name, place, s));
        ensure!(s == w.alone[i], "{}: {} [{}] gives {}, alone it gives {}", what, w.ops[i].name, place, s, w.alone[i]);
        ch.seen_bytes(s.as_bytes());
    }
    Ok(())
}
/// One operation after the other, in one thread or each in its own.
fn in_turn(ch: &Ch, w: &World, list: &[usize], apart: bool) -> R {
    in_turn_after(ch, w, list, apart, (0, 0))
}
/// The same after `before.1` times operation `before.0` in the same thread.
fn in_turn_after(ch: &Ch, w: &World, list: &[usize], apart: bool, before: (usize, usize)) -> R {
    let sh = sh_for(w, list);
    let sh = as_sh(&sh);
    let slot = Slot(Mutex::new(vec![]));
    let names = || list.iter().map(|i| w.ops[*i].name.as_str()).collect::<Vec<_>>().join(", then ");
    let one = |l: &[usize]| -> R {
        let l = l.to_vec();
        let slot = &slot;
        let r = sched::threads(
            vec![Box::new(move || {
                for _ in 0..before.1 {
                    let _ = sched::quiet(|| run_op(w, before.0, sh));
                }
                for i in l {
                    let o = run_op(w, i, sh);
                    slot.put(i, "in turn", o);
                }
            })],
            &|_, _| 0,
        );
        ensure!(r.end == End::Finished, "{}: {:?}", names(), r.end);
        Ok(())
    };
    if apart {
        for i in list {
            one(&[*i])?;
        }
    } else {
        one(list)?;
    }
    ch.sample(names);
    check(ch, w, slot, &names())
}
/// Operations started from callbacks of others.
fn nested(ch: &Ch, w: &World, list: &[(usize, usize)]) -> R {
    let used: Vec<usize> = list.iter().map(|x| x.0).collect();
    let sh = sh_for(w, &used);
    let sh = as_sh(&sh);
    let slot = Slot(Mutex::new(vec![]));
    let names = || list.iter().map(|(i, k)| format!("{} (at callback {})", w.ops[*i].name, k)).collect::<Vec<_>>().join(", inside it ");
    let list2 = list.to_vec();
    let rslot = &slot;
    let r = sched::threads(
        vec![Box::new(move || {
            // The first of the list is the outermost; `list[i].1` is the callback
            // of operation i at which operation i + 1 starts.
            INNER.with(|x| {
                let mut x = x.borrow_mut();
                for j in (1..list2.len()).rev() {
                    let (i, at) = (list2[j].0, list2[j - 1].1);
                    // These live as long as the thread, which is joined or stuck.
                    let (w, sh, rslot) = unsafe { (&*(w as *const World), &*(sh as *const Sh), &*(rslot as *const Slot)) };
                    x.push((
                        at,
                        Box::new(move || {
                            let o = run_op(w, i, sh);
                            rslot.put(i, "inside", o);
                        }),
                    ));
                }
            });
            COUNT.with(|c| c.set(if list2.len() > 1 { list2[0].1 } else { usize::MAX }));
            let o = run_op(w, list2[0].0, sh);
            COUNT.with(|c| c.set(usize::MAX));
            rslot.put(list2[0].0, "outside", o);
        })],
        &|_, _| 0,
    );
    ensure!(r.end == End::Finished, "{}: {:?}", names(), r.end);
    ch.sample(names);
    check(ch, w, slot, &names())
}

/// Operation `j` inside `i` at its callback `k`, while another thread runs `l`.
fn nested_beside(ch: &Ch, w: &World, (i, k): (usize, usize), j: usize, l: usize) -> R {
    let sh = sh_for(w, &[i, j, l]);
    let sh = as_sh(&sh);
    let late: Mutex<Vec<(usize, &str, std::result::Result<Out, String>)>> = Mutex::new(vec![]);
    let put = |i: usize, p: &'static str, o| sched::quiet(|| late.lock().unwrap().push((i, p, o)));
    let put = &put;
    let names = || format!("{} with {} inside at callback {}, beside {}", w.ops[i].name, w.ops[j].name, k, w.ops[l].name);
    let r = sched::threads(
        vec![
            Box::new(move || {
                let inner: Box<dyn FnOnce() + '_> = Box::new(move || put(j, "inside", run_op(w, j, sh)));
                // It runs before this thread ends or never.
                let inner: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(inner) };
                INNER.with(|x| x.borrow_mut().push((0, inner)));
                COUNT.with(|c| c.set(k));
                let o = run_op(w, i, sh);
                COUNT.with(|c| c.set(usize::MAX));
                put(i, "outside", o);
            }),
            Box::new(move || put(l, "beside", run_op(w, l, sh))),
        ],
        &|k: Kind, n: usize| match k {
            Kind::Free => ch.choose(n),
            Kind::Preempt => ch.dev(n),
        },
    );
    ensure!(r.end == End::Finished, "{}: {:?} after {} scheduling points", names(), r.end, r.points);
    let slot = Slot(Mutex::new(vec![]));
    for (i, p, o) in late.into_inner().unwrap() {
        slot.put(i, p, o);
    }
    ch.seen(r.points << 8 | r.switches);
    ch.sample(names);
    check(ch, w, slot, &names())
}

// ---------------------------------------------------------------------------
// Deep documents: the only callbacks are those of the innermost tag.
fn deep_docs(depth: usize) -> Vec<T> {
    [&[0usize][..], &[0, 1, 2]].iter().map(|k| chain(depth, k, raw(90, &[4]), false)).collect()
}
fn deep_ops(depth: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |name: String, f: OpFn| v.push(Op { name, shared: true, core: false, large: true, f });
    let hash = |b: &[u8]| b.iter().fold(b.len() as u64, |a, x| a.wrapping_mul(0x100000001B3) ^ *x as u64);
    for (i, x) in deep_docs(depth).iter().enumerate() {
        let b = enc(x);
        add(format!("decode deep document {}", i), Arc::new(move |s| {
            match s.f.deserialize(&mut ByteArrayReader::new(&b)) {
                Ok(x) => Out::Text(sched::quiet(|| format!("{} {:?}", x.size(), x.to_bytes().map(|c| c == b).ok()))),
                Err(e) => fail(e),
            }
        }));
    }
    let i = 1usize;
    add(format!("size of deep tag {}", i), Arc::new(move |s| Out::Text(s.big[i].size().to_string())));
    add(format!("bytes of deep tag {}", i), Arc::new(move |s| match s.big[i].to_bytes() {
        Ok(b) => Out::Text(format!("{:x}", hash(&b))),
        Err(e) => fail(e),
    }));
    add(format!("clone deep tag {}", i), Arc::new(move |s| match iltag_clone_with_factory(&s.f, s.big[i].as_ref()) {
        Ok(x) => Out::Text(sched::quiet(|| format!("{} {:?}", x.size(), x.to_bytes().map(|c| hash(&c)).ok()))),
        Err(e) => fail(e),
    }));
    add(format!("compare deep tags {}", i), Arc::new(move |s| Out::Text(iltag_are_equal(s.big[i].as_ref(), s.big_twins[i].as_ref()).to_string())));
    v
}
/// Each thread makes way for the next at the given one of its callbacks.
fn relay(ch: &Ch, w: &World, plan: &[(usize, usize)]) -> R {
    let used: Vec<usize> = plan.iter().map(|p| p.0).collect();
    let sh = sh_for(w, &used);
    let sh = as_sh(&sh);
    let slot = Slot(Mutex::new(vec![]));
    let late: Mutex<Vec<(usize, usize, std::result::Result<Out, String>)>> = Mutex::new(vec![]);
    let fs: Vec<Box<dyn FnOnce() + Send + '_>> = plan
        .iter()
        .enumerate()
        .map(|(k, (i, _))| {
            let (late, i) = (&late, *i);
            Box::new(move || {
                WHO.with(|x| x.set(k));
                CALLS.with(|c| c.set(0));
                let o = run_op(w, i, sh);
                sched::quiet(|| late.lock().unwrap().push((k, i, o)));
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    let n = plan.len();
    let r = sched::threads(fs, &|k: Kind, alts: usize| match k {
        Kind::Free => 0,
        Kind::Preempt => {
            let me = WHO.with(|x| x.get());
            if HERE.with(|h| h.get()) && CALLS.with(|c| c.get()) == plan[me].1 && me + 1 < n {
                // The others in order, without this one.
                (me + 1).min(alts - 1)
            } else {
                0
            }
        }
    });
    let names = || plan.iter().map(|(i, k)| format!("{} (stopped at callback {})", w.ops[*i].name, k)).collect::<Vec<_>>().join(" with ");
    ensure!(r.end == End::Finished, "threads {}: {:?} after {} scheduling points", names(), r.end, r.points);
    for (k, i, o) in late.into_inner().unwrap() {
        slot.put(i, &format!("thread {}", k), o);
    }
    ch.seen(r.points << 8 | r.switches);
    ch.sample(|| format!("{}: {} points, {} switches", names(), r.points, r.switches));
    check(ch, w, slot, &names())
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let w = Arc::new(world(ops(), big_docs3));
    let n = w.ops.len();
    let all_n = n;
    let n = w.ops.iter().position(|o| o.large).unwrap_or(n);
    let core: Vec<usize> = (0..n).filter(|i| w.ops[*i].core).collect();
    let large: Vec<usize> = (n..all_n).collect();
    let mut spaces = vec![];
    {
        let w = w.clone();
        let d = if th { 3 } else { 2 };
        spaces.push(
            space("history", format!("every sequence of up to {} of {} operations (successful, failed, panicking, on large values), in one thread and each in a fresh one, each sequence in a fresh process", d, all_n), move |ch| {
                let apart = ch.flag();
                let k = 1 + ch.choose(d);
                let l: Vec<usize> = (0..k).map(|_| ch.choose(all_n)).collect();
                in_turn(ch, &w, &l, apart)
            })
            .forked(),
        );
    }
    {
        let w = w.clone();
        let core = core.clone();
        let d = if th { 4 } else { 3 };
        spaces.push(
            space("history-core", format!("every sequence of {} of {} core operations", d, core.len()), move |ch| {
                let apart = ch.flag();
                let l: Vec<usize> = (0..d).map(|_| *ch.pick(&core)).collect();
                in_turn(ch, &w, &l, apart)
            })
            .forked(),
        );
    }
    {
        let w = w.clone();
        let times: Vec<usize> = if th { vec![20, 300, 5000, 70_000, 1_100_000] } else { vec![20, 300, 5000, 70_000] };
        spaces.push(
            space("many", format!("each operation {:?} times (those on large values up to 300), then every operation in the same thread", times), move |ch| {
                let i = ch.choose(all_n);
                let k = *ch.pick(&times);
                if i >= n && k > 300 {
                    return Ok(());
                }
                let all: Vec<usize> = (0..all_n).collect();
                ch.ops(k as u64);
                in_turn_after(ch, &w, &all, false, (i, k)).map_err(|m| format!("after {} times {}: {}", k, w.ops[i].name, m))
            })
            .forked()
            .limit(100),
        );
    }
    {
        let w = w.clone();
        let kmax = w.calls.iter().copied().max().unwrap_or(0).max(1);
        spaces.push(
            space("nested", format!("every operation started from every callback (reader, writer, creator, custom tag, payload) of every operation, {} x {} operations, up to {} callbacks", n, n, kmax), move |ch| {
                let i = ch.choose(n);
                let k = w.calls[i];
                if k == 0 {
                    return Ok(());
                }
                let k = ch.choose(k);
                let j = ch.choose(n);
                nested(ch, &w, &[(i, k), (j, 0)])
            })
            .forked(),
        );
    }
    {
        let w = w.clone();
        let core: Vec<usize> = core.iter().copied().filter(|i| w.calls[*i] > 0).collect();
        let step = if th { 1 } else { 3 };
        spaces.push(
            space("nested3", format!("three levels: {} core operations inside each other, at every {} callback", core.len(), if th { "" } else { "third" }), move |ch| {
                let mut l = vec![];
                for d in 0..3 {
                    let i = *ch.pick(&core);
                    let k = if d < 2 { ch.choose(w.calls[i].div_ceil(step)) * step } else { 0 };
                    l.push((i, k));
                }
                nested(ch, &w, &l)
            })
            .batch(),
        );
    }
    {
        let w = w.clone();
        let core = core.clone();
        spaces.push(
            space("cold", format!("two threads, all pairs of {} core operations, every interleaving at all scheduling points with one preemption, each in a fresh process", core.len()), move |ch| {
                let i = ch.choose(core.len());
                let j = i + ch.choose(core.len() - i);
                concurrently(ch, &w, &[vec![core[i]], vec![core[j]]], true)
            })
            .devs(1)
            .forked(),
        );
    }
    {
        let w = w.clone();
        let d = if th { 2 } else { 1 };
        spaces.push(
            space("pairs", format!("two threads, one operation each, all pairs of {} operations: every interleaving at all scheduling points with up to {} preemptions", n, d), move |ch| {
                let i = ch.choose(n);
                let j = i + ch.choose(n - i);
                concurrently(ch, &w, &[vec![i], vec![j]], true)
            })
            .devs(d)
            .batch(),
        );
    }
    {
        let w = w.clone();
        let core = core.clone();
        let d = if th { 3 } else { 2 };
        spaces.push(
            space("pairs-core", format!("two threads, all pairs of {} core operations: every interleaving at callbacks and synchronisation operations with up to {} preemptions", core.len(), d), move |ch| {
                let i = ch.choose(core.len());
                let j = i + ch.choose(core.len() - i);
                concurrently(ch, &w, &[vec![core[i]], vec![core[j]]], false)
            })
            .devs(d)
            .batch(),
        );
    }
    {
        let w = w.clone();
        let core = core.clone();
        spaces.push(
            space("two-each", format!("two threads with two of {} core operations each{}: every interleaving at callbacks and synchronisation operations with one preemption", core.len(), if th { "" } else { ", the first or the second the same" }), move |ch| {
                let p = || *ch.pick(&core);
                let (a, b, c, d) = (p(), p(), p(), p());
                if (a, b) > (c, d) || ch.tier == Tier::Quick && a != c && b != d {
                    return Ok(());
                }
                concurrently(ch, &w, &[vec![a, b], vec![c, d]], false)
            })
            .devs(1)
            .batch(),
        );
    }
    {
        let w = w.clone();
        let core = core.clone();
        let d = if th { 2 } else { 1 };
        spaces.push(
            space("three", format!("three threads, one of {} core operations each: every interleaving at callbacks and synchronisation operations with up to {} preemptions", core.len(), d), move |ch| {
                let i = ch.choose(core.len());
                let j = i + ch.choose(core.len() - i);
                let k = j + ch.choose(core.len() - j);
                concurrently(ch, &w, &[vec![core[i]], vec![core[j]], vec![core[k]]], false)
            })
            .devs(d)
            .batch(),
        );
    }
    {
        let w = w.clone();
        let core = core.clone();
        spaces.push(
            space("nested-pairs", format!("two threads, one of {} core operations inside another in the first, one of them in the second: every callback, one preemption at callbacks and synchronisation operations", core.len()), move |ch| {
                let i = *ch.pick(&core);
                if w.calls[i] == 0 {
                    return Ok(());
                }
                let k = ch.choose(w.calls[i]);
                let (j, l) = (*ch.pick(&core), *ch.pick(&core));
                if ch.tier == Tier::Quick && l != i && l != j {
                    return Ok(());
                }
                nested_beside(ch, &w, (i, k), j, l)
            })
            .devs(1)
            .batch(),
        );
    }
    {
        let w = w.clone();
        let few: Vec<usize> = core.iter().chain(&large).copied().collect();
        let large = large.clone();
        spaces.push(
            space("large-nested", format!("{} operations on large values started from every callback of core operations, and {} operations started from such callbacks of operations on large values as stand for all", large.len(), few.len()), move |ch| {
                let i = *ch.pick(&few);
                let at = if w.ops[i].large { places(w.calls[i]) } else { (0..w.calls[i]).collect() };
                if at.is_empty() {
                    return Ok(());
                }
                let k = *ch.pick(&at);
                let j = *ch.pick(if w.ops[i].large { &few } else { &large });
                nested(ch, &w, &[(i, k), (j, 0)])
            })
            .batch(),
        );
    }
    {
        let w = w.clone();
        let few: Vec<usize> = if th { core.iter().chain(&large).copied().collect() } else { core.iter().step_by(2).copied().collect() };
        let large = large.clone();
        spaces.push(
            space("large-pairs", format!("two threads, each of {} operations on large values beside each of {}: every interleaving at callbacks and synchronisation operations with one preemption", large.len(), few.len()), move |ch| {
                let i = *ch.pick(&large);
                let j = *ch.pick(&few);
                concurrently(ch, &w, &[vec![i], vec![j]], false)
            })
            .devs(1)
            .batch(),
        );
    }
    {
        let depth = if th { 1000 } else { 500 };
        let w = Arc::new(world(deep_ops(depth), move || deep_docs(depth)));
        let w1 = w.clone();
        let m = w.ops.len();
        let few = move |n: usize, th: bool| -> Vec<usize> {
            // Not only the last: that may be one of the harness's own look at the result.
            let mut v: Vec<usize> = if th { (0..n.max(1)).collect() } else { vec![0, 1, n / 2, n.saturating_sub(1)] };
            v.retain(|x| *x < n.max(1));
            v.dedup();
            v
        };
        spaces.push(
            space("deep-pairs", format!("two threads, each of {} operations on documents {} levels deep stopped at {} callbacks of the innermost tag while another runs", m, depth, if th { "each of the" } else { "the first, second, middle and last of the" }), move |ch| {
                let (i, j) = (ch.choose(m), ch.choose(m));
                let k = *ch.pick(&few(w1.calls[i], th));
                relay(ch, &w1, &[(i, k), (j, usize::MAX)])
            })
            .batch(),
        );
        spaces.push(
            space("deep-many", format!("3 and 8 threads with the same of {} operations on documents {} levels deep, each stopped at such a callback until all are there", m, depth), move |ch| {
                let n = *ch.pick(&[8, 3]);
                let i = ch.choose(m);
                let k = *ch.pick(&few(w.calls[i], th));
                relay(ch, &w, &vec![(i, k); n])
            })
            .batch(),
        );
    }
    Prop {
        id: "C26",
        spaces,
        assumptions: vec![
            "one thread runs at a time (sequential consistency); it can be preempted at callbacks of the harness, allocations and releases (space pairs), atomic operations and accesses to writable static memory in the crate, and futex waits and wakes of std's locks".into(),
            "every execution runs in its own process; the expected result is the one of the operation alone in a fresh process".into(),
        ],
    }
}
