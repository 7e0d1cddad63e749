//! C06: every tag survives a serialization round trip.
use super::docs::*;
use crate::bridge::*;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::ILTagFactory;
use std::sync::Arc;

fn show(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

fn roundtrip(ch: &Ch, x: &T, f: &ILStandardTagFactory) -> R {
    let tag = build(x);
    ch.op();
    let bytes = tag.to_bytes().map_err(|e| format!("{} does not serialize: {:?}", show(x), e))?;
    ch.say(|| format!("{} serializes to {}", show(x), hex(&bytes)));
    ch.sample(|| format!("{} <-> {}", show(x), hex(&bytes)));
    ch.op();
    let back = f.from_bytes(&bytes).map_err(|e| format!("{} -> {} does not decode: {:?}", show(x), hex(&bytes), e))?;
    let y = extract(back.as_ref())?;
    ensure!(y == *x, "{} -> {} decodes as {}", show(x), hex(&bytes), show(&y));
    ch.op();
    let again = back.to_bytes().map_err(|e| format!("decoded {} does not serialize: {:?}", show(x), e))?;
    ensure!(again == bytes, "{} serializes again as {} instead of {}", show(x), hex(&again), hex(&bytes));
    // The stream form, with data following.
    let mut r = ByteArrayReader::new(&bytes);
    ch.op();
    let back = f.deserialize(&mut r).map_err(|e| format!("{} does not decode from a reader: {:?}", show(x), e))?;
    ensure!(r.available() == 0, "{}: {} bytes not consumed", show(x), r.available());
    ensure!(extract(back.as_ref())? == *x, "{} decoded from a reader differs", show(x));
    ch.seen_bytes(&bytes[..bytes.len().min(24)]);
    ch.flush_outcome();
    Ok(())
}

/// No raw tag has an identifier that means another type here.
fn no_own_raw(x: &T) -> bool {
    match &x.v {
        V::Raw(_) => own_kind(x.id).is_none(),
        V::Arr(a) | V::Seq(a) => a.iter().all(no_own_raw),
        V::Dict(m) => m.values().all(no_own_raw),
        _ => true,
    }
}

pub fn prop(tier: Tier) -> Prop {
    let lax = ILStandardTagFactory::new(false);
    let strict = ILStandardTagFactory::new(true);
    let own_lax = own_factory(false);
    let own_strict = own_factory(true);
    let check: TreeCheck = Arc::new(move |ch, x| {
        roundtrip(ch, x, &lax)?;
        if no_raw(x) {
            roundtrip(ch, x, &strict)?;
        }
        // The same types under identifiers of the user, all of them or some.
        for base in [0, 2] {
            let y = owned(x, base);
            if y != *x && no_own_raw(x) {
                roundtrip(ch, &y, if no_raw(x) { &own_strict } else { &own_lax })?;
            }
        }
        Ok(())
    });
    Prop {
        id: "C06",
        spaces: tag_spaces(tier, check).into_iter().chain([super::huge::counts(tier)]).collect(),
        assumptions: vec!["values are taken from the listed alphabets; trees larger than the bound combine the same per-type code".into()],
    }
}
