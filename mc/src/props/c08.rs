//! C08: the decoder accepts exactly the well-formed tags.
use super::dec::*;
use super::docs::*;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::{self, ILTag, ILTagCreator, ILTagFactory};

/// A tag of the user that reads a fixed number of bytes, whatever is there.
struct Lazy {
    id: u64,
    take: usize,
    got: Vec<u8>,
}
impl ILTag for Lazy {
    fn id(&self) -> u64 {
        self.id
    }
    fn value_size(&self) -> u64 {
        self.got.len() as u64
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> tags::Result<()> {
        w.write_all(&self.got)?;
        Ok(())
    }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, r: &mut dyn Reader) -> tags::Result<()> {
        self.got = vec![0; self.take];
        r.read_all(&mut self.got)?;
        Ok(())
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}
struct LazyCreator(usize);
impl ILTagCreator for LazyCreator {
    fn create_empty_tag(&self, id: u64) -> Box<dyn ILTag> {
        Box::new(Lazy { id, take: self.0, got: vec![] })
    }
}
/// The value a tag decoded as the only or the middle element holds.
fn lazy_in<'a>(x: &'a dyn ILTag, nest: usize) -> Option<&'a Lazy> {
    use il2_iltags::tags::standard::explicit::*;
    let x = match nest {
        0 => x,
        1 => tags::tag_downcast_ref::<ILTagSeqTag>(x)?.value().get(1)?.as_ref(),
        2 => tags::tag_downcast_ref::<ILTagArrayTag>(x)?.value().get(1)?.as_ref(),
        _ => tags::tag_downcast_ref::<ILDictTag>(x)?.get("k")?,
    };
    tags::tag_downcast_ref::<Lazy>(x)
}

pub fn prop(tier: Tier) -> Prop {
    let th = tier == Tier::Thorough;
    let f = fs();
    let mut spaces = vec![];
    spaces.push(super::huge::grammar(tier));
    macro_rules! sp {
        ($n:expr, $b:expr, $f:expr) => {{
            let f = f.clone();
            let body: fn(&Ch, &Fs) -> R = $f;
            spaces.push(space($n, $b, move |ch| body(ch, &f)));
        }};
    }
    sp!("bytes", "every value byte of a boolean, every one-byte value, and values of 0 to 40 bytes in every implicit and explicit standard tag and in unknown ones, declared 1 short, exact and 1 long", |ch, f| {
        let id = ch.choose(41) as u8;
        let n = ch.choose(41);
        for d in [-1i64, 0, 1] {
            for seed in 0..6u64 {
                let mut b = vec![id];
                let declared = n as i64 + d;
                if declared < 0 || declared > 247 {
                    continue;
                }
                if id >= 16 {
                    b.push(declared as u8);
                }
                b.extend(match seed {
                    0 => vec![0; n],
                    1 => vec![1; n],
                    2 => vec![0xFF; n],
                    3 => (0..n as u8).collect(),
                    4 => vec![b'a'; n],
                    _ => crate::alpha::fill(n, id as u64),
                });
                both(ch, &b, f)?;
            }
        }
        ch.visit(17);
        if n == 0 {
            for v in 0..=255u8 {
                both(ch, &[id, v], f)?;
                both(ch, &[id, v, 0, 0], f)?;
                both(ch, &[id, 1, v], f)?;
            }
            ch.visit(768);
        }
        Ok(())
    });
    {
        let f = f.clone();
        let top = if th { 4 } else { 3 };
        spaces.push(space("short", format!("every byte sequence of up to {} bytes, both modes", top), move |ch| {
            let n = ch.choose(top + 1);
            let mut b = vec![0u8; n];
            let outer = n.min(2);
            for x in b.iter_mut().take(outer) {
                *x = ch.choose(256) as u8;
            }
            let total = 256u64.pow((n - outer) as u32);
            for i in 0..total {
                for j in outer..n {
                    b[j] = (i >> (8 * (j - outer))) as u8;
                }
                both(ch, &b, &f)?;
            }
            ch.visit(total - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let top = if th { 5 } else { 4 };
        spaces.push(space("grammar", format!("every content of up to {} bytes over {} structural bytes in every explicit standard tag and an unknown one, declared one short, exact and one long", top, SYM.len()), move |ch| {
            let id = *ch.pick(&[16u8, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30, 31, 32, 28]);
            let n = ch.choose(top + 1);
            let mut c = vec![0u8; n];
            let outer = n.min(2);
            for x in c.iter_mut().take(outer) {
                *x = *ch.pick(&SYM);
            }
            let s = SYM.len();
            let total = s.pow((n - outer) as u32);
            for i in 0..total {
                let mut k = i;
                for x in c.iter_mut().skip(outer) {
                    *x = SYM[k % s];
                    k /= s;
                }
                for d in [0i64, -1, 1] {
                    if n as i64 + d < 0 {
                        continue;
                    }
                    let mut b = vec![id, (n as i64 + d) as u8];
                    b.extend(&c);
                    both(ch, &b, &f)?;
                }
            }
            ch.visit(3 * total as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = f.clone();
        let top = if th { 4 } else { 3 };
        spaces.push(space("nested_grammar", format!("every sequence of up to {} structural bytes as the content of a tag inside a sequence, an array, a dictionary entry and a dictionary key, the inner or the outer length off by one", top), move |ch| {
            let shape = ch.choose(5);
            let id = *ch.pick(&[16u8, 17, 19, 20, 21, 22, 23, 24, 25, 30, 31, 32, 3, 10, 14, 15]);
            let n = ch.choose(top + 1);
            let mut c = vec![0u8; n];
            if n > 0 {
                c[0] = *ch.pick(&SYM);
            }
            let s = SYM.len();
            let total = s.pow(n.saturating_sub(1) as u32);
            for i in 0..total {
                let mut k = i;
                for x in c.iter_mut().skip(1) {
                    *x = SYM[k % s];
                    k /= s;
                }
                for (di, d) in [(0i64, 0i64), (1, 0), (-1, 0), (0, 1), (0, -1)] {
                    let mut inner = vec![id];
                    if id >= 16 {
                        if n as i64 + di < 0 {
                            continue;
                        }
                        inner.push((n as i64 + di) as u8);
                    }
                    inner.extend(&c);
                    let (oid, val) = match shape {
                        0 => (22, inner.clone()),
                        1 => (21, [vec![1u8], inner.clone()].concat()),
                        2 => (21, [vec![2u8], inner.clone(), vec![0]].concat()),
                        3 => (30, [vec![1u8, 17, 1, b'k'], inner.clone()].concat()),
                        _ => (30, [vec![1u8], inner.clone(), vec![0]].concat()),
                    };
                    let mut b = vec![oid, (val.len() as i64 + d) as u8];
                    b.extend(val);
                    both(ch, &b, &f)?;
                }
            }
            ch.visit(5 * total as u64 - 1);
            Ok(())
        }));
    }
    let ds: Vec<Vec<u8>> = docs().iter().map(enc).chain(big_docs().iter().map(enc)).collect();
    {
        let f = f.clone();
        let ds = ds.clone();
        spaces.push(space("mutations", format!("{} documents of all types x cut, insert, replace (all 256 values), delete, duplicate, swap at every position", ds.len()), move |ch| {
            let d = ch.pick(&ds).clone();
            mutate(ch, &d, &mut |b| both(ch, b, &f))
        }));
    }
    {
        let f = f.clone();
        let lim = if th { 40 } else { 24 };
        let ds: Vec<Vec<u8>> = ds.iter().filter(|d| d.len() <= lim).cloned().collect();
        let vals: Vec<u8> = SYM.to_vec();
        spaces.push(space("double_mutations", format!("{} documents of at most {} bytes x every pair of positions replaced by every pair of {} structural bytes", ds.len(), lim, vals.len()), move |ch| {
            let d = ch.pick(&ds).clone();
            let i = ch.choose(d.len());
            let rest = d.len() - i - 1;
            if rest == 0 {
                return Ok(());
            }
            let j = i + 1 + ch.choose(rest);
            for x in &vals {
                for y in &vals {
                    let mut b = d.clone();
                    b[i] = *x;
                    b[j] = *y;
                    both(ch, &b, &f)?;
                }
            }
            ch.visit((vals.len() * vals.len()) as u64 - 1);
            Ok(())
        }));
    }
    let everything: Vec<T> = docs().into_iter().chain(wide_docs()).collect();
    for (name, devs, top) in [("ilints", if th { 3 } else { 2 }, if th { 14 } else { 12 }), ("ilints_one", 1u32, usize::MAX)] {
        let f = f.clone();
        let all: Vec<T> = everything.iter().filter(|x| ilint_sites(x, 0) <= top).cloned().collect();
        spaces.push(
            space(name, format!("{} documents (of at most {} ILInts) x up to {} of their ILInts (identifier, length, count, value) replaced by every longer form, a neighbouring or extreme value, or an overflowing encoding", all.len(), top, devs), move |ch| {
                let x = ch.pick(&all);
                let b = enc_deviating(ch, x);
                both(ch, &b, &f)
            })
            .devs(devs),
        );
    }
    for (name, devs, top) in [("longer_forms", if th { 4 } else { 3 }, 16), ("longer_forms_two", 2, usize::MAX)] {
        let f = f.clone();
        let all: Vec<T> = wide_docs().into_iter().filter(|x| ilint_sites(x, 248) <= top).collect();
        spaces.push(
            space(name, format!("{} documents x up to {} of their ILInts in every longer than necessary form, lengths of the containers consistent", all.len(), devs), move |ch| {
                let x = ch.pick(&all);
                let b = enc_wide(ch, x);
                // All of these are well-formed by construction.
                let (y, n) = dec(&b, false).map_err(|e| format!("harness: model refuses {} {:?}", hex(&b), e))?;
                ensure!(y == *x && n == b.len(), "harness: model disagrees with its own encoder on {}", hex(&b));
                both(ch, &b, &f)
            })
            .devs(devs),
        );
    }
    {
        let f = f.clone();
        let mut ids: Vec<u64> = (0..if th { 100_000 } else { 20_000 }).collect();
        ids.extend(crate::alpha::u64_edges());
        ids.extend(crate::alpha::id_aliases());
        ids.sort_unstable();
        ids.dedup();
        spaces.push(space("ids", format!("{} identifiers with empty, short and oversized values, alone, inside a sequence, as a dictionary key and as either text of a text dictionary, both modes", ids.len()), move |ch| {
            let id = *ch.pick(&ids);
            for val in [&[][..], &[0], &[1, 0], &[0; 16]] {
                let b = frame(id, val);
                both(ch, &b, &f)?;
                both(ch, &frame(22, &b), &f)?;
                let mut i = ilint(id);
                i.extend(val);
                both(ch, &i, &f)?;
                let good = [17u8, 1, b'k'];
                both(ch, &frame(30, &[&[1][..], &b, &[0]].concat()), &f)?;
                both(ch, &frame(31, &[&[1][..], &b, &good].concat()), &f)?;
                both(ch, &frame(31, &[&[1][..], &good, &b].concat()), &f)?;
            }
            ch.visit(23);
            Ok(())
        }));
    }
    sp!("repeated", REPEATED, |ch, f| {
        let (id, v) = repeated(ch);
        let b = frame(id, &v);
        both(ch, &b, f)?;
        both(ch, &frame(22, &b), f)?;
        ch.visit(1);
        Ok(())
    });
    spaces.push(past_contents(tier, f.clone()));
    {
        let mut ids: Vec<u64> = (0..=48).chain([100, 247, 248, 0x1F8, 0x100F8, u64::MAX]).collect();
        // The variable implicit ones may use less; the unassigned one has no size; the
        // containers are needed as they are.
        ids.retain(|i| ![10, 14, 15, 21, 22, 30].contains(i));
        let top = if th { 40 } else { 18 };
        spaces.push(space("lazy", format!("a tag of the user that takes any fixed number of bytes up to {}, under {} identifiers (every assigned, reserved and some free ones), with a value of every size up to {} of zeros, ones or other bytes, alone and inside each container: accepted exactly when it takes all", top + 1, ids.len(), top), move |ch| {
            let id = *ch.pick(&ids);
            let strict = ch.flag();
            let take = ch.choose(top + 2);
            let mut f = ILStandardTagFactory::new(strict);
            f.engine().register(id, Box::new(LazyCreator(take)));
            let mut cases = 0;
            for n in 0..=top {
                let fixed = [0usize, 1, 1, 1, 2, 2, 4, 4, 8, 8, 0, 4, 8, 16];
                if id < 16 && fixed[id as usize] != n {
                    continue;
                }
                for fill in 0..3u64 {
                    let val = match fill {
                        0 => vec![0; n],
                        1 => vec![1; n],
                        _ => crate::alpha::fill(n, id),
                    };
                    let mut b = ilint(id);
                    if id >= 16 {
                        b.extend(ilint(n as u64));
                    }
                    b.extend(&val);
                    for nest in 0..4 {
                        // Neighbours: bytes that a tag reading too far would find.
                        let b = match nest {
                            0 => b.clone(),
                            1 => frame(22, &[&[22u8, 0][..], &b, &[22, 0]].concat()),
                            2 => frame(21, &[&[3u8, 22, 0][..], &b, &[22, 0]].concat()),
                            _ => frame(30, &[&[1u8, 17, 1, b'k'][..], &b].concat()),
                        };
                        if nest == 3 && id == 17 {
                            continue;
                        }
                        ch.op();
                        cases += 1;
                        let r = f.from_bytes(&b);
                        let got = match &r {
                            Ok(x) => Some(lazy_in(x.as_ref(), nest).map(|x| &x.got)),
                            Err(_) => None,
                        };
                        let want = if take == n { Some(Some(&val)) } else { None };
                        ensure!(got == want, "a tag {} that takes {} of {} bytes ({}): {:?} instead of {:?} for {}", id, take, n, ["alone", "in a sequence", "in an array", "in a dictionary"][nest], got, want, hex(&b));
                    }
                }
            }
            ch.visit(cases.max(1) - 1);
            Ok(())
        }));
    }
    // The standard types under identifiers of the user.
    let own = own_fs();
    {
        let f = own.clone();
        let top = if th { 4 } else { 3 };
        spaces.push(space("own_grammar", format!("every content of up to {} bytes over {} structural bytes in every standard type registered under an identifier of the user, alone and inside a container under one, declared one short, exact and one long", top, SYM.len()), move |ch| {
            let base = ch.choose(2);
            let id = own_id(*ch.pick(&OWN_KINDS), base).expect("harness: own kind");
            let n = ch.choose(top + 1);
            let mut c = vec![0u8; n];
            let outer = n.min(2);
            for x in c.iter_mut().take(outer) {
                *x = *ch.pick(&SYM);
            }
            let s = SYM.len();
            let total = s.pow((n - outer) as u32);
            for i in 0..total {
                let mut k = i;
                for x in c.iter_mut().skip(outer) {
                    *x = SYM[k % s];
                    k /= s;
                }
                for d in [0i64, -1, 1] {
                    if n as i64 + d < 0 {
                        continue;
                    }
                    let mut b = ilint(id);
                    b.push((n as i64 + d) as u8);
                    b.extend(&c);
                    both(ch, &b, &f)?;
                    both(ch, &frame(122, &b), &f)?;
                    both(ch, &frame(130, &[&[1u8, 17, 1, b'k'][..], &b].concat()), &f)?;
                }
            }
            ch.visit(9 * total as u64 - 1);
            Ok(())
        }));
    }
    {
        let f = own.clone();
        spaces.push(space("own_bytes", "values of 0 to 40 bytes in every standard type registered under an identifier of the user, declared 1 short, exact and 1 long, alone and in a container", move |ch| {
            let base = ch.choose(2);
            let id = own_id(*ch.pick(&OWN_KINDS), base).expect("harness: own kind");
            let n = ch.choose(41);
            for d in [-1i64, 0, 1] {
                for seed in 0..6u64 {
                    if n as i64 + d < 0 {
                        continue;
                    }
                    let mut b = ilint(id);
                    b.push((n as i64 + d) as u8);
                    b.extend(match seed {
                        0 => vec![0; n],
                        1 => vec![1; n],
                        2 => vec![0xFF; n],
                        3 => (0..n as u8).collect(),
                        4 => vec![b'a'; n],
                        _ => crate::alpha::fill(n, id),
                    });
                    both(ch, &b, &f)?;
                    both(ch, &frame(121, &[&[1u8][..], &b].concat()), &f)?;
                }
            }
            ch.visit(35);
            Ok(())
        }));
    }
    let os: Vec<T> = own_docs();
    {
        let f = own.clone();
        let ds: Vec<Vec<u8>> = os.iter().map(enc).collect();
        spaces.push(space("own_mutations", format!("{} documents with identifiers of the user x cut, insert, replace (all 256 values), delete, duplicate, swap at every position", ds.len()), move |ch| {
            let d = ch.pick(&ds).clone();
            mutate(ch, &d, &mut |b| both(ch, b, &f))
        }));
    }
    {
        let f = own.clone();
        let os: Vec<T> = os.iter().filter(|x| ilint_sites(x, 0) <= 14).cloned().collect();
        let devs = if th { 2 } else { 1 };
        spaces.push(
            space("own_ilints", format!("{} documents with identifiers of the user x up to {} of their ILInts in another form or with another value", os.len(), devs), move |ch| {
                let b = enc_deviating(ch, ch.pick(&os));
                both(ch, &b, &f)
            })
            .devs(devs),
        );
    }
    Prop {
        id: "C08",
        spaces,
        assumptions: vec!["inputs declaring between 1 MB and 512 MB are left to C09 and C11 (the real decoder reserves that memory)".into()],
    }
}
