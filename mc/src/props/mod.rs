use crate::sup::{Ctx, Prop};

pub mod dec;
pub mod docs;
pub mod huge;
pub mod mach;
pub mod prims;
pub mod scan;
macro_rules! props {
    ($($f:literal $m:ident $id:literal),*) => {
        $( #[cfg(feature = $f)] mod $m; )*
        pub fn get(c: &Ctx) -> Prop {
            match c.id.as_str() {
                $( #[cfg(feature = $f)] $id => $m::prop(c.tier), )*
                x => { eprintln!("mc: property {} is not built in", x); std::process::exit(2) }
            }
        }
    };
}
props!("c01" c01 "C01", "c02" c02 "C02", "c03" c03 "C03", "c04" c04 "C04", "c05" c05 "C05", "c06" c06 "C06", "c07" c07 "C07", "c08" c08 "C08", "c09" c09 "C09", "c10" c10 "C10", "c11" c11 "C11", "c12" c12 "C12", "c13" c13 "C13", "c14" c14 "C14", "c15" c15 "C15", "c16" c16 "C16", "c17" c17 "C17", "c18" c18 "C18", "c19" c19 "C19", "c20" c20 "C20", "c21" c21 "C21", "c22" c22 "C22", "c23" c23 "C23", "c24" c24 "C24", "c25" c25 "C25", "c26" c26 "C26", "c27" c27 "C27", "c28" c28 "C28");

/// The bytes of `depth` nested containers around a null tag. kind 0: sequence,
/// 1: array, 2: dictionary.
pub fn nested_bytes(kind: usize, depth: usize) -> Vec<u8> {
    use crate::model::ilint;
    // Built backwards so that it takes linear time.
    let mut rev: Vec<u8> = vec![0];
    for _ in 0..depth {
        let mut v: Vec<u8> = match kind {
            0 => vec![],
            1 => vec![1],
            _ => vec![1, 17, 1, b'k'],
        };
        let id = [22u8, 21, 30][kind];
        let n = (rev.len() + v.len()) as u64;
        let mut h = vec![id];
        h.extend(ilint(n));
        h.append(&mut v);
        h.reverse();
        rev.extend(h);
    }
    rev.reverse();
    rev
}
/// Decodes, measures, writes and drops a nested document in a thread with the
/// default stack; ends with 0 when everything worked.
pub fn deep(kind: &str, depth: usize) -> i32 {
    use il2_iltags::tags::standard::ILStandardTagFactory;
    use il2_iltags::tags::ILTagFactory;
    let k: usize = kind.parse().expect("kind");
    let b = nested_bytes(k, depth);
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let f = ILStandardTagFactory::new(false);
            let t = match f.from_bytes(&b) {
                Ok(t) => t,
                Err(_) => return 10,
            };
            if t.size() != b.len() as u64 {
                return 11;
            }
            match t.to_bytes() {
                Ok(x) if x == b => 0,
                _ => 12,
            }
        })
        .expect("thread")
        .join()
        .unwrap_or(13)
}
