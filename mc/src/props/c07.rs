//! C07: wire format and declared sizes.
use super::docs::*;
use crate::alpha::*;
use crate::bridge::*;
use crate::engine::*;
use crate::model::*;
use crate::sup::Prop;
use il2_iltags::io::array::*;
use std::sync::Arc;

fn show(x: &T) -> String {
    let s = format!("{:?}", x);
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

pub fn wire(ch: &Ch, x: &T) -> R {
    let want = enc(x);
    let val = enc_value(&x.v);
    let tag = build(x);
    ch.say(|| format!("{} must serialize to {}", show(x), hex(&want)));
    ch.sample(|| format!("{} -> {}", show(x), hex(&want)));
    ch.ops(6);
    ensure_eq!(tag.id(), x.id, "id of {}", show(x));
    ensure_eq!(tag.is_implicity(), x.id < 16, "is_implicity of id {}", x.id);
    ensure_eq!(tag.is_reserved(), x.id < 32, "is_reserved of id {}", x.id);
    ensure_eq!(tag.value_size(), val.len() as u64, "value_size of {}", show(x));
    ensure_eq!(tag.size(), want.len() as u64, "size of {}", show(x));
    let got = tag.to_bytes().map_err(|e| format!("to_bytes of {}: {:?}", show(x), e))?;
    ensure!(got == want, "{} serializes to {} instead of {}", show(x), hex(&got), hex(&want));
    let mut w = VecWriter::new();
    tag.serialize(&mut w).map_err(|e| format!("serialize of {}: {:?}", show(x), e))?;
    ensure!(w.as_slice() == &want[..], "{} is written as {} instead of {}", show(x), hex(w.as_slice()), hex(&want));
    let mut w = VecWriter::new();
    tag.serialize_value(&mut w).map_err(|e| format!("serialize_value of {}: {:?}", show(x), e))?;
    ensure!(w.as_slice() == &val[..], "the value of {} is written as {} instead of {}", show(x), hex(w.as_slice()), hex(&val));
    ch.seen_bytes(&want[..want.len().min(24)]);
    ch.flush_outcome();
    Ok(())
}

pub fn prop(tier: Tier) -> Prop {
    let check: TreeCheck = Arc::new(|ch: &Ch, x: &T| {
        wire(ch, x)?;
        // The same types under identifiers of the user, all of them or some.
        for base in [0, 2] {
            let y = owned(x, base);
            if y != *x {
                wire(ch, &y)?;
            }
        }
        Ok(())
    });
    let mut spaces = tag_spaces(tier, check);
    spaces.push(super::huge::counts(tier));
    let mut ids: Vec<u64> = (0..=600).collect();
    ids.extend(u64_edges());
    ids.sort_unstable();
    ids.dedup();
    spaces.push(space("typed_ids", format!("{} identifiers x every tag type that accepts one", ids.len()), move |ch| {
        let id = *ch.pick(&ids);
        let mut n = 0;
        for x in kinds() {
            let fixed = matches!(x.v, V::Bytes(_) | V::BigInt(_));
            // Raw-backed types refuse implicit identifiers.
            let explicit_only = matches!(x.v, V::Raw(_) | V::BigDec(..));
            if fixed || (explicit_only && id < 16) {
                continue;
            }
            wire(ch, &T { id, v: x.v })?;
            n += 1;
        }
        ch.visit(n - 1);
        Ok(())
    }));
    let mut ids: Vec<u64> = (0..=70_000).collect();
    ids.extend(u64_edges());
    ids.extend(id_aliases());
    spaces.push(space("free_functions", format!("{} identifiers: their class and the size of an implicit value by the free functions", ids.len()), move |ch| {
        let id = *ch.pick(&ids);
        ensure_eq!(il2_iltags::tags::is_implicit_tag(id), id < 16, "is_implicit_tag({})", id);
        ensure_eq!(il2_iltags::tags::is_reserved_tag(id), id < 32, "is_reserved_tag({})", id);
        // Null, bool, 8 to 64 bits twice, ILInt (at most), 32 to 128 bits of floats,
        // signed ILInt (at most), unassigned.
        let size = [0u64, 1, 1, 1, 2, 2, 4, 4, 8, 8, 9, 4, 8, 16, 9, 0];
        ensure_eq!(il2_iltags::tags::standard::implicit::implicit_tag_size(id), *size.get(id as usize).filter(|_| id < 16).unwrap_or(&0), "implicit_tag_size({})", id);
        ch.ops(3);
        ch.seen(id);
        ch.flush_outcome();
        Ok(())
    }));
    Prop { id: "C07", spaces, assumptions: vec!["values are taken from the listed alphabets".into()] }
}
