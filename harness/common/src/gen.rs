//! Generators shared by the checks. All are biased towards edges but cover the
//! whole domain.

use std::collections::BTreeMap;

use proptest::prelude::*;

/// Any u64, biased to edges (0, powers of two and their neighbours, extremes).
pub fn u64_any() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => 0u64..16,
        3 => (0u32..64, -2i64..=2).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
        2 => (0u64..8).prop_map(|d| u64::MAX - d),
        1 => (0u64..8, any::<bool>()).prop_map(|(d, s)| {
            let m = i64::MAX as u64;
            if s { m + d } else { m - d }
        }),
        3 => any::<u64>(),
        1 => (any::<u64>(), 0u32..64).prop_map(|(v, s)| v >> s),
    ]
}

/// Any i64, biased likewise.
pub fn i64_any() -> impl Strategy<Value = i64> {
    prop_oneof![
        3 => -8i64..8,
        2 => (0i64..8).prop_map(|d| i64::MAX - d),
        2 => (0i64..8).prop_map(|d| i64::MIN + d),
        6 => u64_any().prop_map(|v| v as i64),
    ]
}

/// Any string: empty, plain names, punctuation-heavy, unicode, long.
pub fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        20 => Just(String::new()),
        80 => "[a-z]{1,3}",
        80 => "[a-z_]{1,8}(/[a-z0-9]{1,4}){0,3}",
        40 => "[ -~]{0,24}",
        40 => "[\"\\\\\n{}=,/:; ]{1,8}",
        40 => "\\PC{0,12}",
        20 => "[\u{0}-\u{1f}\u{7f}-\u{a0}]{1,6}",
        18 => (1usize..400).prop_map(|n| "x".repeat(n)),
        3 => long_text(3000),
    ]
}

/// A short text repeated up to some length (in bytes, about), often just
/// around a power of two.
pub fn long_text(max: usize) -> impl Strategy<Value = String> {
    let unit = prop_oneof![
        2 => "[\"\\\\\n{}=,/:; ]{1,4}",
        2 => "[ -~]{1,8}",
        1 => "\\PC{1,4}",
        1 => "[a-z]",
    ];
    let len = prop_oneof![
        1 => 10..=max,
        1 => (4u32..=max.ilog2(), -2isize..=2).prop_map(|(p, d)| ((1isize << p) + d) as usize),
    ];
    (unit, len).prop_map(|(u, n)| {
        let n = if u.len() == 1 { n } else { n / u.len() + 1 };
        u.repeat(n)
    })
}

/// A metric name; small pool so that names collide, plus arbitrary text.
pub fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[a-c]",
        2 => "[a-z]{1,6}(/[a-z]{1,4}){0,2}",
        2 => text(),
    ]
}

pub fn ident_key() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[a-d]", 3 => "[a-zA-Z_][a-zA-Z0-9_]{0,10}"]
}

/// A string map with arbitrary keys.
pub fn smap(max: usize) -> impl Strategy<Value = BTreeMap<String, String>> {
    prop_oneof![
        4 => proptest::collection::btree_map(prop_oneof![2 => "[a-d]", 2 => text()], text(), 0..=max),
        1 => proptest::collection::btree_map("[a-z]{1,3}", "[a-z]{0,3}", 0..=max),
    ]
}

/// Histogram powers with a bucket array small enough to use freely.
pub fn powers() -> impl Strategy<Value = (u8, u8)> {
    (0u8..=8).prop_flat_map(|g| {
        (
            Just(g),
            prop_oneof![
                2 => (g + 1)..=64,
                1 => Just(64u8),
                1 => Just(g + 1),
                1 => Just(63u8),
                1 => (g + 1)..=(g + 4),
            ],
        )
    })
}

/// Bucket arrays of thousands to hundreds of thousands of buckets.
pub fn powers_large() -> impl Strategy<Value = (u8, u8)> {
    (9u8..=14).prop_flat_map(|g| (Just(g), prop_oneof![3 => (g + 1)..=64, 2 => Just(64u8), 1 => Just(g + 1)]))
}

/// Smaller bucket arrays, for cases that hold many histograms.
pub fn powers_small() -> impl Strategy<Value = (u8, u8)> {
    (0u8..=3).prop_flat_map(|g| {
        (
            Just(g),
            prop_oneof![4 => (g + 1)..=(g + 5), 1 => (g + 1)..=64, 1 => Just(64u8)],
        )
    })
}

/// Independent re-statement of the bucket layout documented by `histogram`:
/// 2^(g+1) unit-wide buckets, then 2^g equal buckets per power of two.
pub fn total_buckets(g: u8, m: u8) -> usize {
    (1usize << (g + 1)) + (m as usize - g as usize - 1) * (1usize << g)
}

/// Bucket of `v`, or None when it is out of range.
pub fn bucket_of(g: u8, m: u8, v: u64) -> Option<usize> {
    if m < 64 && v >= (1u64 << m) {
        return None;
    }
    let linear = 1u128 << (g as u32 + 1);
    if (v as u128) < linear {
        return Some(v as usize);
    }
    let p = 63 - v.leading_zeros();
    let width = 1u64 << (p - g as u32);
    let below = (1usize << (g + 1)) + (p as usize - g as usize - 1) * (1usize << g);
    Some(below + ((v - (1u64 << p)) / width) as usize)
}
