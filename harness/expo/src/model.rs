//! Generated snapshots and recordings, and comparable forms of the real ones.
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, SystemTime};

use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::gen;

pub type Labels = BTreeMap<String, String>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct R<V> {
    pub name: String,
    pub value: V,
    pub md: Labels,
}

/// A histogram by its powers and non-zero buckets.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct H {
    pub p: (u8, u8),
    /// (bucket as a fraction of the array, count)
    pub cells: Vec<(u16, u64)>,
}

impl H {
    pub fn buckets(&self) -> Vec<u64> {
        let n = gen::total_buckets(self.p.0, self.p.1);
        let mut v = vec![0u64; n];
        for (at, c) in &self.cells {
            // the extremes of the fraction are the first and last bucket
            let i = if *at == u16::MAX { n - 1 } else { (*at as usize * n) >> 16 };
            v[i] = *c;
        }
        v
    }
    pub fn real(&self) -> histogram::Histogram {
        histogram::Histogram::from_buckets(self.p.0, self.p.1, self.buckets()).expect("valid histogram")
    }
}

/// One snapshot.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct S {
    /// seconds and nanoseconds since 1970
    pub time: (u64, u32),
    /// the duration makes it a V2 snapshot
    pub duration: Option<(u64, u32)>,
    pub md: Labels,
    pub counters: Vec<R<u64>>,
    pub gauges: Vec<R<i64>>,
    pub histograms: Vec<R<H>>,
}

fn hash(m: &Labels) -> HashMap<String, String> {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn labels(m: &HashMap<String, String>) -> Labels {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

impl S {
    pub fn time_ns(&self) -> u64 {
        (self.time.0 as u128 * 1_000_000_000 + self.time.1 as u128) as u64
    }
    pub fn duration_ns(&self) -> Option<u64> {
        self.duration.map(|d| (d.0 as u128 * 1_000_000_000 + d.1 as u128) as u64)
    }
    pub fn real(&self) -> mx::Snapshot {
        let systemtime = SystemTime::UNIX_EPOCH + Duration::new(self.time.0, self.time.1);
        let metadata = hash(&self.md);
        let counters = self.counters.iter().map(|c| mx::Counter { name: c.name.clone(), value: c.value, metadata: hash(&c.md) }).collect();
        let gauges = self.gauges.iter().map(|c| mx::Gauge { name: c.name.clone(), value: c.value, metadata: hash(&c.md) }).collect();
        let histograms =
            self.histograms.iter().map(|c| mx::Histogram { name: c.name.clone(), value: c.value.real(), metadata: hash(&c.md) }).collect();
        match self.duration {
            None => mx::Snapshot::V1(mx::SnapshotV1 { systemtime, metadata, counters, gauges, histograms }),
            Some(d) => mx::Snapshot::V2(mx::SnapshotV2 { systemtime, duration: Duration::new(d.0, d.1), metadata, counters, gauges, histograms }),
        }
    }
    pub fn norm(&self) -> Norm {
        Norm {
            v2: self.duration.is_some(),
            time: Duration::new(self.time.0, self.time.1),
            duration: self.duration.map(|d| Duration::new(d.0, d.1)),
            md: self.md.clone(),
            counters: self.counters.iter().map(|c| (c.name.clone(), c.value, c.md.clone())).collect(),
            gauges: self.gauges.iter().map(|c| (c.name.clone(), c.value, c.md.clone())).collect(),
            histograms: self.histograms.iter().map(|c| (c.name.clone(), c.value.p, c.value.buckets(), c.md.clone())).collect(),
        }
    }
}

/// Everything there is to a snapshot, in comparable form.
#[derive(Clone, Debug, PartialEq)]
pub struct Norm {
    pub v2: bool,
    pub time: Duration,
    pub duration: Option<Duration>,
    pub md: Labels,
    pub counters: Vec<(String, u64, Labels)>,
    pub gauges: Vec<(String, i64, Labels)>,
    pub histograms: Vec<(String, (u8, u8), Vec<u64>, Labels)>,
}

pub fn norm(s: &mx::Snapshot) -> Norm {
    let (v2, duration, t, md, c, g, h) = match s {
        mx::Snapshot::V1(s) => (false, None, s.systemtime, &s.metadata, &s.counters, &s.gauges, &s.histograms),
        mx::Snapshot::V2(s) => (true, Some(s.duration), s.systemtime, &s.metadata, &s.counters, &s.gauges, &s.histograms),
    };
    Norm {
        v2,
        time: t.duration_since(SystemTime::UNIX_EPOCH).unwrap_or_default(),
        duration,
        md: labels(md),
        counters: c.iter().map(|c| (c.name.clone(), c.value, labels(&c.metadata))).collect(),
        gauges: g.iter().map(|c| (c.name.clone(), c.value, labels(&c.metadata))).collect(),
        histograms: h
            .iter()
            .map(|c| {
                let cfg = c.value.config();
                (c.name.clone(), (cfg.grouping_power(), cfg.max_value_power()), c.value.as_slice().to_vec(), labels(&c.metadata))
            })
            .collect(),
    }
}

/// What differs, briefly.
pub fn diff(got: &Norm, want: &Norm) -> Result<(), String> {
    vcommon::ensure_eq!(got.v2, want.v2, "is a V2 snapshot");
    vcommon::ensure_eq!(got.time, want.time, "time");
    vcommon::ensure_eq!(got.duration, want.duration, "duration");
    vcommon::ensure_eq!(got.md, want.md, "snapshot metadata");
    vcommon::ensure_eq!(got.counters, want.counters, "counters");
    vcommon::ensure_eq!(got.gauges, want.gauges, "gauges");
    vcommon::ensure_eq!(got.histograms, want.histograms, "histograms");
    Ok(())
}

/// The documented column identity, written independently of the library.
pub fn canonical(name: &str, md: &Labels) -> String {
    let Some(metric) = md.get("metric") else {
        return name.to_string();
    };
    let first = ["name", "op", "state", "direction"];
    let hidden = ["metric", "unit", "grouping_power", "max_value_power"];
    let mut parts: Vec<&str> = vec![metric];
    parts.extend(first.iter().filter_map(|k| md.get(*k)).map(|s| s.as_str()));
    // BTreeMap: ascending keys
    for (k, v) in md {
        if !first.contains(&k.as_str()) && !hidden.contains(&k.as_str()) && k != "id" {
            parts.push(v);
        }
    }
    parts.extend(md.get("id").map(|s| s.as_str()));
    parts.join("/")
}

// ---------------------------------------------------------------- generators

pub fn hist(small: bool) -> BoxedStrategy<H> {
    let p = if small { gen::powers_small().boxed() } else { gen::powers().boxed() };
    let at = prop_oneof![2 => Just(0u16), 2 => Just(u16::MAX), 6 => any::<u16>()];
    let cell = (at, prop_oneof![3 => 1u64..5, 1 => Just(0u64), 2 => gen::u64_any()]);
    (p, proptest::collection::vec(cell, 0..8)).prop_map(|(p, cells)| H { p, cells }).boxed()
}

fn md_any() -> BoxedStrategy<Labels> {
    prop_oneof![2 => Just(Labels::new()), 3 => gen::smap(4)].boxed()
}

fn reading<V: std::fmt::Debug + 'static>(v: impl Strategy<Value = V> + 'static) -> BoxedStrategy<R<V>> {
    (gen::name(), v, md_any()).prop_map(|(name, value, md)| R { name, value, md }).boxed()
}

/// Times since 1970; `wide` goes to the end of what SystemTime can hold.
pub fn time(wide: bool) -> BoxedStrategy<(u64, u32)> {
    let max = if wide { i64::MAX as u64 } else { 18_446_744_073 };
    let ns = prop_oneof![1 => Just(0u32), 1 => Just(999_999_999u32), 1 => Just(1u32), 3 => 0u32..1_000_000_000];
    (
        prop_oneof![
            1 => Just(0u64),
            4 => 1_600_000_000u64..1_900_000_000,
            1 => Just(max),
            1 => 0..=max,
            1 => Just(u32::MAX as u64 + 1),
            1 => Just(i32::MAX as u64 + 1),
        ],
        ns,
    )
        // 2^64 ns is 18446744073.709551616 s
        .prop_map(move |(s, n)| if !wide && s == max { (s, n % 709_551_616) } else { (s, n) })
        .boxed()
}

pub fn dur(wide: bool) -> BoxedStrategy<(u64, u32)> {
    prop_oneof![
        1 => Just((0u64, 0u32)),
        2 => (Just(0u64), 0u32..1_000_000_000),
        2 => time(false),
        1 => if wide { (any::<u64>(), 0u32..1_000_000_000).boxed() } else { time(false) },
        1 => if wide { Just((u64::MAX, 999_999_999u32)).boxed() } else { Just((18_446_744_073u64, 709_551_615u32)).boxed() },
    ]
    .boxed()
}

/// Any snapshot at all (names may repeat).
pub fn snapshot_any() -> BoxedStrategy<S> {
    let n = 0usize..5;
    (
        time(true),
        proptest::option::of(dur(true)),
        md_any(),
        proptest::collection::vec(reading(gen::u64_any()), n.clone()),
        proptest::collection::vec(reading(gen::i64_any()), n.clone()),
        proptest::collection::vec(reading(hist(true)), 0usize..3),
    )
        .prop_map(|(time, duration, md, counters, gauges, histograms)| S { time, duration, md, counters, gauges, histograms })
        .boxed()
}

/// A metric that may appear in the snapshots of one recording.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ident {
    pub names: Vec<String>,
    pub md: Labels,
}

pub fn ident() -> BoxedStrategy<Ident> {
    // names of the file's own columns and parts of others
    let fixed = prop_oneof![Just("timestamp"), Just("duration"), Just("a:buckets"), Just("a:bucket_counts"), Just("a:bucket_indices")].prop_map(String::from);
    let plain = (prop_oneof![12 => gen::name(), 1 => fixed], prop_oneof![2 => Just(Labels::new()), 2 => gen::smap(3)]).prop_map(|(n, mut md)| {
        md.remove("metric");
        Ident { names: vec![n], md }
    });
    let key = prop_oneof![
        4 => prop_oneof![Just("name"), Just("op"), Just("state"), Just("direction"), Just("id"), Just("unit"), Just("grouping_power"), Just("max_value_power")].prop_map(String::from),
        3 => "[a-z]{1,4}",
        1 => "[A-Z_0-9]{1,3}",
        1 => Just("description".to_string()),
        1 => Just("metric_type".to_string()),
        1 => gen::text(),
    ];
    let labelled = (
        prop_oneof![3 => "[a-c]{1,2}", 1 => gen::text()],
        proptest::collection::btree_map(key, prop_oneof![4 => "[a-z0-9]{1,3}".boxed(), 1 => gen::text().boxed()], 0..6),
        proptest::collection::vec("[0-9x]{1,4}", 1..4),
    )
        .prop_map(|(metric, mut md, names)| {
            md.insert("metric".into(), metric);
            Ident { names, md }
        });
    prop_oneof![2 => plain, 3 => labelled].boxed()
}

/// A recording: snapshots over a shared pool of metrics, such that within one
/// snapshot no two readings of a kind share a column.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Recording(pub Vec<S>);

#[derive(Clone, Debug)]
struct Row {
    time: (u64, u32),
    duration: Option<(u64, u32)>,
    md: Labels,
    counters: Vec<(prop::sample::Index, prop::sample::Index, u64)>,
    gauges: Vec<(prop::sample::Index, prop::sample::Index, i64)>,
    histograms: Vec<(prop::sample::Index, prop::sample::Index, H)>,
    /// metadata of readings may change over time
    tweak: Option<(String, String)>,
}

pub fn recording(max_rows: usize, small: bool) -> BoxedStrategy<Recording> {
    let idx = || any::<prop::sample::Index>();
    let pool = || proptest::collection::vec(ident(), 1..6);
    let row = (
        time(false),
        proptest::option::of(dur(false)),
        prop_oneof![3 => Just(Labels::new()), 2 => gen::smap(3)],
        proptest::collection::vec((idx(), idx(), gen::u64_any()), 0..5),
        proptest::collection::vec((idx(), idx(), gen::i64_any()), 0..5),
        proptest::collection::vec((idx(), idx(), hist(small)), 0..3),
        prop_oneof![3 => Just(None), 1 => ("[a-z]{1,3}", "[a-z]{0,3}").prop_map(Some)],
    )
        .prop_map(|(time, duration, md, counters, gauges, histograms, tweak)| Row { time, duration, md, counters, gauges, histograms, tweak });
    // mostly V1, mostly V2, or mixed
    let force = prop_oneof![1 => Just(Some(false)), 1 => Just(Some(true)), 2 => Just(None)];
    (pool(), pool(), pool(), proptest::collection::vec(row, 0..=max_rows), force)
        .prop_map(|(pc, pg, ph, rows, force)| {
            fn pick<V: Clone>(pool: &[Ident], list: &[(prop::sample::Index, prop::sample::Index, V)], tweak: &Option<(String, String)>) -> Vec<R<V>> {
                let mut seen = vec![];
                let mut out = vec![];
                for (i, n, v) in list {
                    let id = i.get(pool);
                    let mut md = id.md.clone();
                    if let Some((k, val)) = tweak {
                        if !md.contains_key("metric") {
                            md.insert(k.clone(), val.clone());
                        } else {
                            // does not enter the name of the column
                            md.insert("unit".into(), val.clone());
                        }
                    }
                    let name = n.get(&id.names).clone();
                    let c = canonical(&name, &md);
                    if !seen.contains(&c) {
                        seen.push(c);
                        out.push(R { name, value: v.clone(), md });
                    }
                }
                out
            }
            Recording(
                rows.iter()
                    .map(|r| S {
                        time: r.time,
                        duration: match force {
                            Some(false) => None,
                            Some(true) => Some(r.duration.unwrap_or((1, 2))),
                            None => r.duration,
                        },
                        md: r.md.clone(),
                        counters: pick(&pc, &r.counters, &r.tweak),
                        gauges: pick(&pg, &r.gauges, &r.tweak),
                        histograms: pick(&ph, &r.histograms, &r.tweak),
                    })
                    .collect(),
            )
        })
        .boxed()
}
