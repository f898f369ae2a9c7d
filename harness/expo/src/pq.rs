//! C17-C20: the Parquet schema and writer.
use std::collections::BTreeMap;

use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

use crate::model::*;
use crate::table::*;

pub fn opts() -> BoxedStrategy<Opts> {
    (
        // high levels cost a lot per column and row group: see `high`
        prop_oneof![2 => Just(None), 3 => Just(Some(0)), 3 => (1i32..=3).prop_map(Some)],
        prop_oneof![2 => Just(None), 5 => (1usize..8).prop_map(Some), 1 => (8usize..5000).prop_map(Some), 1 => Just(Some(usize::MAX))],
        prop_oneof![1 => Just(None), 1 => Just(Some(false)), 2 => Just(Some(true))],
    )
        .prop_map(|(compression, batch, sparse)| Opts { compression, batch, sparse })
        .boxed()
}

fn describe(rec: &Recording, obs: &mut Obs) {
    let s = &rec.0;
    let readings = s.iter().map(|s| s.counters.len() + s.gauges.len() + s.histograms.len()).sum::<usize>();
    obs.nontrivial(s.len() >= 2 && readings >= 2);
    obs.label_if(s.is_empty(), "no snapshots");
    obs.label_if(s.iter().any(|s| !s.histograms.is_empty()), "has histograms");
    obs.label_if(s.iter().any(|s| s.duration.is_some()) && s.iter().any(|s| s.duration.is_none()), "both versions");
    let all: std::collections::BTreeSet<String> = s.iter().flat_map(|s| s.counters.iter().map(|c| canonical(&c.name, &c.md))).collect();
    obs.label_if(s.iter().any(|s| s.counters.len() < all.len()), "a counter is missing somewhere");
}

/// Options that matter little to the property at hand.
fn some_opts() -> BoxedStrategy<Opts> {
    prop_oneof![2 => Just(Opts::plain()), 1 => Just(Opts { sparse: Some(true), ..Opts::plain() }), 2 => opts()].boxed()
}

// ------------------------------------------------------------------ C17

fn fidelity(c: &(Recording, Opts), obs: &mut Obs) -> CaseResult {
    let (rec, o) = c;
    let got = read(write(rec, o, None)?)?;
    let want = expected(rec, o.is_sparse(), &Labels::new());
    same_data(&got, &want)?;
    describe(rec, obs);
    obs.label_if(o.is_sparse(), "sparse");
    Ok(())
}

/// A recording by formula: long, or with many metrics.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub rows: u32,
    pub metrics: u32,
    pub seed: u64,
    pub hist: bool,
    pub v2: bool,
    /// the last row has a metric of each kind that no other row has
    #[serde(default)]
    pub late: bool,
    /// powers of two more histograms, in every row and with every bucket used
    #[serde(default)]
    pub heavy: Option<(u8, u8)>,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Long {
    pub fn recording(&self) -> Recording {
        Recording(
            (0..self.rows as u64)
                .map(|r| {
                    let h = |m: u64, k: u64| mix(self.seed ^ (r << 20) ^ (m << 2) ^ k);
                    let present = |m: u64, k: u64| h(m, k ^ 0x9000) % 8 != 0;
                    let ids = || 0..self.metrics as u64;
                    let mut s = S {
                        time: (1_700_000_000 + r, (h(0, 3) % 1_000_000_000) as u32),
                        duration: self.v2.then(|| (0, (h(1, 3) % 1_000_000) as u32)),
                        md: Labels::new(),
                        counters: ids().filter(|m| present(*m, 0)).map(|m| R { name: format!("c{m}"), value: h(m, 0), md: Labels::new() }).collect(),
                        gauges: ids()
                            .filter(|m| present(*m, 1))
                            .map(|m| R { name: format!("{m}"), value: h(m, 1) as i64, md: [("metric".to_string(), "g".to_string()), ("id".to_string(), m.to_string())].into() })
                            .collect(),
                        histograms: ids()
                            .filter(|m| self.hist && *m < 2 && present(*m, 2))
                            .map(|m| R { name: format!("h{m}"), value: H { p: (1, 5), cells: vec![((h(m, 2) >> 48) as u16, h(m, 2) % 1000), ((h(m, 5) >> 48) as u16, h(m, 5))] }, md: Labels::new() })
                            .collect(),
                    };
                    if self.late && r + 1 == self.rows as u64 {
                        s.counters.push(R { name: "late".into(), value: h(7, 0), md: Labels::new() });
                        s.gauges.push(R { name: "late".into(), value: h(8, 0) as i64, md: Labels::new() });
                        s.histograms.push(R { name: "late".into(), value: H { p: (1, 5), cells: vec![(0, h(9, 0))] }, md: Labels::new() });
                    }
                    if let Some(p) = self.heavy {
                        let n = gen::total_buckets(p.0, p.1) as u64;
                        for m in 0..2 {
                            let cells = (0..n.min(60_000)).map(|i| ((((i << 16) + n - 1) / n) as u16, h(m + 3, i << 3))).collect();
                            s.histograms.push(R { name: format!("heavy{m}"), value: H { p, cells }, md: Labels::new() });
                        }
                    }
                    s
                })
                .collect(),
        )
    }
}

fn long(rows: BoxedStrategy<u32>, metrics: BoxedStrategy<u32>) -> BoxedStrategy<Long> {
    (rows, metrics, any::<u64>(), any::<bool>(), any::<bool>()).prop_map(|(rows, metrics, seed, hist, v2)| Long { rows, metrics, seed, hist, v2, late: seed % 3 == 0, heavy: None }).boxed()
}

fn fidelity_long(c: &(Long, Opts), obs: &mut Obs) -> CaseResult {
    fidelity(&(c.0.recording(), c.1.clone()), obs)?;
    obs.label_if(c.0.rows > 1000, "over 1000 rows");
    obs.label_if(c.0.metrics > 100, "over 100 metrics of a kind");
    Ok(())
}

/// Readings that occur for the first, last or only time at chosen rows.
fn lone() -> BoxedStrategy<Recording> {
    (1usize..12, any::<prop::sample::Index>(), 0u8..3, hist(false), gen::u64_any(), proptest::option::of(dur(false)))
        .prop_map(|(n, at, kind, h, v, d)| {
            let at = at.index(n);
            Recording(
                (0..n)
                    .map(|i| {
                        let mut s = S { time: (1000 + i as u64, i as u32), duration: d, md: Labels::new(), counters: vec![], gauges: vec![], histograms: vec![] };
                        if i == at {
                            match kind {
                                0 => s.counters.push(R { name: "x".into(), value: v, md: Labels::new() }),
                                1 => s.gauges.push(R { name: "x".into(), value: v as i64, md: Labels::new() }),
                                _ => s.histograms.push(R { name: "x".into(), value: h.clone(), md: Labels::new() }),
                            }
                        }
                        s
                    })
                    .collect(),
            )
        })
        .boxed()
}

/// Schema from more snapshots than are written, or in another order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Apart {
    rec: Recording,
    reversed: bool,
    sparse: bool,
}

fn apart(c: &Apart, obs: &mut Obs) -> CaseResult {
    // the rows are those pushed to the writer, in that order
    let mut schema = mx::ParquetSchema::new();
    for s in &c.rec.0 {
        schema.push(s.real());
    }
    let mut rows = c.rec.clone();
    if c.reversed {
        rows.0.reverse();
    }
    let o = Opts { sparse: Some(c.sparse), ..Opts::plain() };
    let mut out = vec![];
    let mut w = schema.finalize(&mut out, o.real(), None).map_err(|e| e.to_string())?;
    for s in &rows.0 {
        w.push(s.real()).map_err(|e| e.to_string())?;
    }
    w.finalize().map_err(|e| e.to_string())?;
    let got = read(out)?;
    let want = expected(&rows, c.sparse, &Labels::new());
    same_data(&got, &want)?;
    describe(&c.rec, obs);
    Ok(())
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule("recordings of generated snapshots (metrics that come and go, full-range values and times, histograms of every configuration, both versions mixed), written and read back with the arrow reader and compared cell by cell with an independently computed table; non-trivial with at least two snapshots and two readings");
    ctx.assume("within one snapshot no two readings of a kind share a column name; times and durations fit 64-bit nanoseconds since 1970; files are read with the parquet and arrow crates");
    ctx.check_par("recording", ctx.cases(20_000, 10), || (recording(8, false), some_opts()), fidelity);
    ctx.check_par("lone", ctx.cases(8000, 6), || (lone(), some_opts()), fidelity);
    ctx.check_par("order", ctx.cases(4000, 6), || (recording(6, true), any::<bool>(), any::<bool>()).prop_map(|(rec, reversed, sparse)| Apart { rec, reversed, sparse }), apart);
    ctx.check_par(
        "long",
        ctx.cases(150, 5),
        || (long((9u32..3000).boxed(), (1u32..4).boxed()), some_opts()),
        fidelity_long,
    );
    ctx.check_par(
        "wide",
        ctx.cases(150, 5),
        || (long((1u32..12).boxed(), (50u32..400).boxed()), some_opts()),
        fidelity_long,
    );
    ctx.check_par("very_wide", ctx.cases(6, 6), || (long((1u32..4).boxed(), (1000u32..5000).boxed()), some_opts()), fidelity_long);
    // histograms of very many buckets
    ctx.check_par(
        "large",
        ctx.cases(160, 8),
        || {
            let cells = proptest::collection::vec((prop_oneof![Just(u16::MAX), Just(0u16), 60_000u16.., any::<u16>()], gen::u64_any()), 1..5);
            let h = (gen::powers_large(), cells).prop_map(|(p, cells)| H { p, cells });
            (proptest::collection::vec(proptest::option::weighted(0.8, h), 1..4), any::<bool>(), some_opts()).prop_map(|(hs, two, o)| {
                let rec = hs
                    .into_iter()
                    .enumerate()
                    .map(|(i, h)| {
                        let histograms = h.into_iter().flat_map(|h| (0..1 + two as usize).map(move |k| R { name: format!("h{k}"), value: h.clone(), md: Labels::new() })).collect();
                        S { time: (i as u64, 0), duration: None, md: Labels::new(), counters: vec![], gauges: vec![], histograms }
                    })
                    .collect();
                (Recording(rec), o)
            })
        },
        fidelity,
    );
}

// ------------------------------------------------------------------ C18

/// Expand sparse histogram columns to dense ones (or leave a dense table).
fn dense(t: &Table, bucket_counts: &BTreeMap<(String, usize), usize>) -> Result<Table, String> {
    let mut out = Table { columns: vec![], metadata: t.metadata.clone(), row_groups: t.row_groups.clone(), codecs: t.codecs.clone() };
    let mut it = t.columns.iter().peekable();
    while let Some(c) = it.next() {
        let Some(name) = c.name.strip_suffix(":bucket_indices").filter(|_| c.kind == "list") else {
            out.columns.push(c.clone());
            continue;
        };
        let counts = it.next().ok_or("no counts column follows the indices")?;
        ensure_eq!(counts.name, format!("{name}:bucket_counts"), "column after the indices");
        let mut cells = vec![];
        for (row, (i, n)) in c.cells.iter().zip(&counts.cells).enumerate() {
            cells.push(match (i, n) {
                (Cell::Null, Cell::Null) => Cell::Null,
                (Cell::L(i), Cell::L(n)) => {
                    ensure_eq!(i.len(), n.len(), "indices and counts in row {row} of {name:?}");
                    ensure!(i.windows(2).all(|w| w[0] < w[1]), "indices in row {row} of {name:?} do not ascend");
                    ensure!(n.iter().all(|c| *c != 0), "a zero count in row {row} of {name:?}");
                    let len = *bucket_counts.get(&(name.to_string(), row)).ok_or("a histogram where there was none")?;
                    let mut v = vec![0; len];
                    for (i, n) in i.iter().zip(n) {
                        *v.get_mut(*i as usize).ok_or_else(|| format!("index {i} in row {row} of {name:?} is past the last bucket"))? = *n;
                    }
                    Cell::L(v)
                }
                _ => return Err(format!("indices and counts of row {row} of {name:?} are not null together")),
            });
        }
        out.columns.push(Column { name: format!("{name}:buckets"), kind: "list", annotations: c.annotations.clone(), cells });
    }
    Ok(out)
}

fn sizes(rec: &Recording) -> BTreeMap<(String, usize), usize> {
    rec.0.iter().enumerate().flat_map(|(r, s)| s.histograms.iter().map(move |h| ((canonical(&h.name, &h.md), r), h.value.buckets().len()))).collect()
}

fn check_groups(t: &Table, n: usize, batch: Option<usize>) -> CaseResult {
    ensure_eq!(t.rows(), n, "rows");
    ensure!(t.row_groups.iter().all(|g| *g > 0), "an empty row group: {:?}", t.row_groups);
    if let (Some(b), Some((last, rest))) = (batch, t.row_groups.split_last()) {
        ensure!(rest.iter().all(|g| *g == b) && *last <= b, "row groups {:?} under a batch size of {b}", &t.row_groups[..t.row_groups.len().min(8)]);
    }
    Ok(())
}

fn options(c: &(Recording, Vec<Opts>), obs: &mut Obs) -> CaseResult {
    let (rec, all) = c;
    let base = read(write(rec, &Opts { compression: Some(0), batch: None, sparse: Some(false) }, None)?)?;
    let lens = sizes(rec);
    for o in all {
        let got = read(write(rec, o, None)?).map_err(|e| format!("under {o:?}: {e}"))?;
        check_groups(&got, rec.0.len(), o.batch).map_err(|e| format!("under {o:?}: {e}"))?;
        if let Some(codec) = o.codec() {
            ensure!(got.codecs.iter().all(|c| *c == codec), "under {o:?}: the columns are compressed with {:?}", got.codecs);
        }
        let wide = if o.is_sparse() { dense(&got, &lens).map_err(|e| format!("under {o:?}: {e}"))? } else { got };
        same_data(&wide, &base).map_err(|e| format!("under {o:?}, compared with no compression, the default batch size and dense histograms: {e}"))?;
    }
    describe(rec, obs);
    obs.label_if(all.iter().any(|o| o.batch.is_some_and(|b| b < rec.0.len())), "several row groups");
    obs.label_if(all.iter().any(|o| o.is_sparse()), "sparse");
    obs.extra_evals(all.len() as u64);
    Ok(())
}

fn options_long(c: &(Long, Vec<Opts>), obs: &mut Obs) -> CaseResult {
    options(&(c.0.recording(), c.1.clone()), obs)?;
    obs.label_if(c.0.rows >= 1024, "1024 rows or more");
    obs.label_if(c.0.heavy.is_some(), "millions of bucket counts");
    Ok(())
}

fn level(l: &i32, obs: &mut Obs) -> CaseResult {
    let ok = vcommon::no_panic("zstd()", || mx::ParquetCompression::zstd(*l).is_ok())?;
    ensure_eq!(ok, (1..=22).contains(l), "is zstd level {l} accepted");
    obs.nontrivial(!ok);
    Ok(())
}

/// Rows around row-group and page boundaries, batch sizes around the row count.
fn around() -> BoxedStrategy<(Long, Vec<Opts>)> {
    let rows = prop_oneof![
        4 => 1u32..40,
        2 => prop::sample::select(vec![1023u32, 1024, 1025, 1026, 2047, 2048, 2049]),
        1 => 100u32..3000,
    ];
    (long(rows.boxed(), (1u32..3).boxed()), opts(), opts(), any::<u64>())
        .prop_map(|(l, mut a, mut b, x)| {
            let r = l.rows as usize;
            let around = [1, 2, r / 2, r.saturating_sub(1), r, r + 1, 1024, 1023, 1000, r / 3];
            a.batch = Some(around[(x % 10) as usize].max(1).max(r / 300));
            b.batch = Some(around[(x / 10 % 10) as usize].max(1).max(r / 300));
            (l, vec![a, b])
        })
        .boxed()
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule("one generated recording written under several options (every compression level, batch sizes from 1 past the number of rows, both histogram forms) and compared cell by cell after expanding sparse histograms; row groups counted; long recordings by formula up to past the default batch size; every class of compression level. Non-trivial: at least two snapshots and two readings (recordings), a refused level (levels)");
    ctx.assume("batch sizes are at least 1 (the parquet crate refuses 0 by panicking); row groups are asked to be exact only when a batch size was set");
    ctx.check_par(
        "options",
        ctx.cases(2400, 40),
        || {
            let rec = recording(12, true);
            (rec, proptest::collection::vec(opts(), 2..4))
        },
        options,
    );
    ctx.check_par("boundaries", ctx.cases(240, 20), around, options_long);
    // at and past the default batch size, with the default options too
    let big = || {
        (prop::sample::select(vec![49_999u32, 50_000, 50_001, 60_000, 65_537]), any::<u64>(), prop::sample::select(vec![20_000usize, 25_000, 40_000, 50_000, 49_999, 50_001, 2_000, 65_536, 1 << 40, usize::MAX])).prop_map(|(rows, seed, b)| {
            let b = b.max(2000);
            (Long { rows, metrics: 1, seed, hist: false, v2: true, late: false, heavy: None }, vec![Opts::plain(), Opts { compression: Some(1), batch: Some(b), sparse: Some(true) }])
        })
    };
    ctx.check_par("huge", ctx.cases(40, 6), big, options_long);
    // few rows that take much memory
    let heavy = || {
        (prop::sample::select(vec![(7u8, 64u8), (6, 64), (8, 40), (9, 64)]), 60u32..400, any::<u64>(), any::<bool>(), prop::sample::select(vec![usize::MAX, 100_000, 400, 399, 150, 64])).prop_map(|(p, rows, seed, sparse, b)| {
            (Long { rows, metrics: 1, seed, hist: false, v2: true, late: false, heavy: Some(p) }, vec![Opts { compression: Some(0), batch: Some(b), sparse: Some(sparse) }])
        })
    };
    ctx.check_par("heavy", ctx.cases(10, 6), heavy, options_long);
    // every level on a small recording
    let high = || (long((1u32..4).boxed(), Just(1u32).boxed()), 1i32..=22, any::<bool>()).prop_map(|(l, c, sparse)| (l, vec![Opts { compression: Some(c), batch: None, sparse: Some(sparse) }]));
    ctx.check_par("high", ctx.cases(120, 20), high, options_long);
    let lv = || prop_oneof![4 => -30i32..60, 2 => any::<i32>(), 1 => Just(i32::MIN), 1 => Just(i32::MAX), 1 => (0u32..31).prop_map(|s| 1 << s), 2 => (any::<i32>(), 1i32..=22).prop_map(|(a, b)| (a & !0xff) | b)];
    ctx.check_par("levels", ctx.cases(20_000, 50), lv, level);
}

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Naming {
    rec: Recording,
    /// for the second file: reverse the readings of each snapshot, and give readings with a 'metric' label these names
    rename: String,
    sparse: bool,
}

fn names_of(t: &Table) -> Vec<(String, &'static str)> {
    t.columns.iter().map(|c| (c.name.clone(), c.kind)).collect()
}

fn naming(c: &Naming, obs: &mut Obs) -> CaseResult {
    let o = Opts { sparse: Some(c.sparse), ..Opts::plain() };
    let got = read(write(&c.rec, &o, None)?)?;
    let want = expected(&c.rec, c.sparse, &Labels::new());
    ensure_eq!(names_of(&got), names_of(&want), "columns");
    same_data(&got, &want)?;
    // neither the order of readings and labels nor opaque names matter
    let mut other = c.rec.clone();
    fn tweak<V>(v: &mut [R<V>], rename: &str) {
        v.reverse();
        for (i, r) in v.iter_mut().enumerate() {
            if r.md.contains_key("metric") {
                r.name = format!("{rename}{i}");
            }
        }
    }
    for s in &mut other.0 {
        tweak(&mut s.counters, &c.rename);
        tweak(&mut s.gauges, &c.rename);
        tweak(&mut s.histograms, &c.rename);
    }
    let again = read(write(&other, &o, None)?)?;
    ensure_eq!(names_of(&again), names_of(&got), "columns after reordering and renaming readings");
    same_data(&again, &got).map_err(|e| format!("after reordering and renaming readings: {e}"))?;
    describe(&c.rec, obs);
    let labelled = c.rec.0.iter().flat_map(|s| s.counters.iter().map(|r| &r.md).chain(s.gauges.iter().map(|r| &r.md)).chain(s.histograms.iter().map(|r| &r.md))).filter(|m| m.contains_key("metric"));
    let most = labelled.map(|m| m.len()).max().unwrap_or(0);
    obs.label_if(most >= 4, "a reading with four labels or more");
    obs.nontrivial(most >= 3);
    Ok(())
}

/// One reading with many labels among the special ones.
fn rich() -> BoxedStrategy<Recording> {
    let special = vec!["name", "op", "state", "direction", "id", "unit", "grouping_power", "max_value_power", "metric_type", "description", "cpu", "Name", "ID", "zz", "idx", "a", "operation", "nam", "metrics", "Unit"];
    let md = || proptest::collection::btree_map(prop::sample::select(special.clone()).prop_map(String::from), prop_oneof![3 => "[a-z0-9]{1,3}".boxed(), 1 => Just(String::new()).boxed(), 1 => gen::text().boxed()], 0..9);
    let one = (md(), prop_oneof![5 => Just(true), 1 => Just(false)], prop_oneof![3 => "[a-z_]{1,6}".boxed(), 1 => Just(String::new()).boxed(), 1 => gen::text().boxed()], gen::name());
    proptest::collection::vec((one, 0u8..3, gen::u64_any()), 1..6)
        .prop_map(|v| {
            Recording(
                v.into_iter()
                    .enumerate()
                    .map(|(i, ((mut md, labelled, metric, name), kind, value))| {
                        if labelled {
                            md.insert("metric".into(), metric);
                        }
                        let mut s = S { time: (i as u64, 0), duration: None, md: Labels::new(), counters: vec![], gauges: vec![], histograms: vec![] };
                        match kind {
                            0 => s.counters.push(R { name, value, md }),
                            1 => s.gauges.push(R { name, value: value as i64, md }),
                            _ => s.histograms.push(R { name, value: H { p: (0, 2), cells: vec![(0, value)] }, md }),
                        }
                        s
                    })
                    .collect(),
            )
        })
        .boxed()
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule("recordings whose readings carry every mixture of special and other labels, named by an independent restatement of the rule; column names, order and placement of the readings compared, and again after reordering readings and replacing the names of labelled readings (maps iterate in a new random order each time). Non-trivial: a reading with a 'metric' label and at least two more, or two snapshots with two readings");
    ctx.assume("within one snapshot no two readings of a kind share a column name");
    ctx.check_par("recordings", ctx.cases(15_000, 10), || (recording(6, true), "[a-z]{1,3}", any::<bool>()).prop_map(|(rec, rename, sparse)| Naming { rec, rename, sparse }), naming);
    ctx.check_par("labels", ctx.cases(20_000, 10), || (rich(), "[a-z]{1,3}", any::<bool>()).prop_map(|(rec, rename, sparse)| Naming { rec, rename, sparse }), naming);
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Annotated {
    rec: Recording,
    caller: Option<Labels>,
    sparse: bool,
}

fn annotations(c: &Annotated, obs: &mut Obs) -> CaseResult {
    let o = Opts { sparse: Some(c.sparse), ..Opts::plain() };
    let got = read(write(&c.rec, &o, c.caller.as_ref())?)?;
    let want = expected(&c.rec, c.sparse, &c.caller.clone().unwrap_or_default());
    // which columns there are is C17's and C19's business
    ensure_eq!(names_of(&got), names_of(&want), "columns");
    same_annotations(&got, &want)?;
    let mds = c.rec.0.iter().filter(|s| !s.md.is_empty()).count();
    obs.nontrivial(mds >= 1 || want.columns.iter().any(|c| c.annotations.len() > 2));
    obs.label_if(mds >= 2, "several snapshots with metadata");
    obs.label_if(c.rec.0.first().is_some_and(|s| s.md.is_empty()) && mds >= 1, "the first snapshot has none");
    obs.label_if(c.caller.as_ref().is_some_and(|m| c.rec.0.iter().any(|s| s.md.keys().any(|k| m.contains_key(k)))), "the caller overrides a key");
    Ok(())
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule("recordings whose readings change their metadata over time and whose snapshots carry, share or lack metadata of their own, with none, disjoint or overriding caller metadata; column annotations and file metadata compared with the independently computed ones (the ARROW:schema entry apart). Non-trivial: a snapshot with metadata or a column annotated with more than its type");
    ctx.assume("no label is called ARROW:schema or PARQUET:field_id (the parquet crate's own)");
    let small = || proptest::collection::btree_map(prop_oneof!["[a-d]".boxed(), gen::text().boxed()], gen::text(), 0..4);
    ctx.check_par(
        "annotations",
        ctx.cases(25_000, 10),
        || {
            (recording(6, true), proptest::collection::vec(prop_oneof![2 => Just(None), 1 => small().prop_map(Some)], 6), proptest::option::of(small()), any::<bool>()).prop_map(
                |(mut rec, mds, caller, sparse)| {
                    // metadata from a small pool of keys so that they meet
                    for (s, m) in rec.0.iter_mut().zip(mds) {
                        match m {
                            Some(m) => s.md = m,
                            None => s.md.clear(),
                        }
                    }
                    Annotated { rec, caller, sparse }
                },
            )
        },
        annotations,
    );
    ctx.check_par("labels", ctx.cases(15_000, 10), || (rich(), proptest::option::of(gen::smap(4)), any::<bool>()).prop_map(|(rec, caller, sparse)| Annotated { rec, caller, sparse }), annotations);
}
