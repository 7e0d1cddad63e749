//! Alphabets: the values each choice ranges over.

/// Values around every power of two, every ILInt size boundary and both ends.
pub fn u64_edges() -> Vec<u64> {
    let mut v: Vec<u64> = (0..=300).collect();
    for k in 0..64 {
        let p = 1u64 << k;
        for d in -2i64..=2 {
            v.push(p.wrapping_add(d as u64));
        }
        // The ILInt bias moves boundaries by 248.
        for d in [-2i64, -1, 0, 1, 2] {
            v.push(p.wrapping_add(248).wrapping_add(d as u64));
            v.push(p.wrapping_sub(248).wrapping_add(d as u64));
        }
    }
    for d in 0..=300u64 {
        v.push(u64::MAX - d);
        v.push((1 << 63) - 150 + d);
    }
    for n in 1..8u32 {
        let b = (1u64 << (8 * n)) - 1 + 248;
        for d in -6i64..=6 {
            v.push(b.wrapping_add(d as u64));
        }
    }
    // Distinct bytes in every position, so that misplaced bytes show.
    v.extend([0x0102030405060708, 0xFEDCBA9876543210, 0x8000000000000001, 0xF8F9FAFBFCFDFEFF, 0x00FF00FF00FF00FF]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Values for sequences of two: the boundary values and values that agree in their
/// low or their high half, in their sum of bytes, or in all bytes but one.
pub fn u64_pairs() -> Vec<u64> {
    let mut v: Vec<u64> = u64_edges().into_iter().filter(|x| *x < 24 || (230..270).contains(x) || (300..u64::MAX - 300).contains(x) && !((1 << 63) - 140..(1 << 63) + 140).contains(x) || *x > u64::MAX - 12).collect();
    v.extend((1u64 << 63) - 4..=(1 << 63) + 4);
    for base in [0x0102030405060708u64, 0x1122334455667788, 0xFEDCBA9876543210] {
        for r in 0..64 {
            v.push(base.rotate_left(r));
        }
        v.push(base.swap_bytes());
        for i in 0..8 {
            for b in [1u64, 0x80, 0xFF] {
                v.push(base ^ (b << (8 * i)));
            }
            v.push(base >> (8 * i));
            v.push(base << (8 * i));
        }
    }
    for hi in [1u64, 2, 0x100, 0xFFFF, 0x1_0000, 0xFFFF_FFFF] {
        for lo in [0u64, 1, 0xF8, 0x1F8, 0x1234_5678, 0xFFFF_FFFF] {
            v.push(hi << 32 | lo);
            v.push(hi << 16 | (lo & 0xFFFF));
            v.push(lo);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Identifiers that share their low bits with a standard one.
pub fn id_aliases() -> Vec<u64> {
    let mut v = vec![];
    for k in 0..=34u64 {
        for j in 5..64 {
            v.push(k + (1 << j));
        }
        v.push(k + 0xFFFF_FFFF_0000_0000);
        v.push(k | 0xFFFF_FFFF_FFFF_FF00);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// A small representative subset.
pub fn u64_few() -> Vec<u64> {
    vec![
        0, 1, 0xF7, 0xF8, 0x1F7, 0x1F8, 0x100F7, 0x100F8, 0x10000F7, 0x10000F8, 0x1000000F7, 0x1000000F8,
        0x100_0000_00F7, 0x100_0000_00F8, 0x1_0000_0000_00F7, 0x1_0000_0000_00F8, 0x100_0000_0000_00F7,
        0x100_0000_0000_00F8, 0x0102030405060708, i64::MAX as u64, 1 << 63, u64::MAX - 0xF8, u64::MAX - 0xF7,
        u64::MAX - 1, u64::MAX,
    ]
}

/// Smallest value of every ILInt width plus the largest.
pub fn u64_widths() -> Vec<u64> {
    vec![
        5, 0xF8, 0x1F8, 0x100F8, 0x10000F8, 0x1000000F8, 0x100_0000_00F8, 0x1_0000_0000_00F8, 0x100_0000_0000_00F8,
        u64::MAX,
    ]
}

/// Lengths: everything small, then windows around the places where a length field,
/// a 512-byte chunk or a 16-bit count changes.
pub fn lengths(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=600).collect();
    for c in [1000usize, 1023, 1024, 1025, 1100, 1535, 1536, 1537, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193] {
        v.push(c);
    }
    v.extend(65530..=65545);
    v.extend(65536 + 240..=65536 + 256);
    for k in 12..=22 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    v.extend([3000, 5000, 10_000, 12_288, 20_000, 50_000, 100_000, 131_072 + 4096, 196_608, 300_000, 1_000_000, 1_500_000, 3_000_000]);
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

/// Deterministic, position dependent filler.
pub fn fill(n: usize, salt: u64) -> Vec<u8> {
    let mut z = salt.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    (0..n)
        .map(|i| {
            z = z.wrapping_mul(6364136223846793005).wrapping_add(i as u64 | 1);
            (z >> 56) as u8
        })
        .collect()
}

/// One byte from each class of UTF-8 byte values (class limits).
pub const UTF8_CLASS: [u8; 25] = [
    0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
    0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF,
];
