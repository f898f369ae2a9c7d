//! C12 and C13: the histogram metrics.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;

use metriken::histogram::{Error, Histogram};
use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::gen::{bucket_of, powers, total_buckets};
use vcommon::{ensure, ensure_eq, gen, no_panic, CaseResult, Ctx, Obs};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum V {
    /// 2^k + d
    Near(u8, i8),
    /// around 2^max_value_power
    Edge(i8),
    Any(u64),
    /// any in-range value, as a fraction
    In(u64),
}
impl V {
    fn get(&self, m: u8) -> u64 {
        match self {
            V::Near(k, d) => 1u64.checked_shl(*k as u32).unwrap_or(0).wrapping_add(*d as i64 as u64),
            V::Edge(d) => 1u64.checked_shl(m as u32).unwrap_or(0).wrapping_add(*d as i64 as u64),
            V::Any(v) => *v,
            V::In(v) => {
                if m == 64 {
                    *v
                } else {
                    v & ((1u64 << m) - 1)
                }
            }
        }
    }
}
fn v() -> impl Strategy<Value = V> {
    prop_oneof![
        2 => (0u8..64, -2i8..3).prop_map(|(k, d)| V::Near(k, d)),
        2 => (-2i8..3).prop_map(V::Edge),
        2 => gen::u64_any().prop_map(V::Any),
        4 => any::<u64>().prop_map(V::In),
        2 => (any::<u64>(), 0u32..64).prop_map(|(v, s)| V::In(v >> s)),
        1 => (0u64..8).prop_map(V::Any),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum HOp {
    Rec(V),
    Burst(V, u16),
    Load,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    p: (u8, u8),
    ops: Vec<HOp>,
    registered: bool,
}

fn counts(h: &Histogram) -> BTreeMap<usize, u64> {
    h.as_slice().iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i, *c)).collect()
}

fn check_load(h: &AtomicHistogram, p: (u8, u8), model: &BTreeMap<usize, u64>, failed: bool) -> CaseResult {
    match h.load() {
        None => ensure!(model.is_empty(), "load returns nothing after {} recordings", model.values().sum::<u64>()),
        Some(l) => {
            // a refused value may leave an empty histogram behind
            ensure!(failed || !model.is_empty(), "load returns a histogram before the first recording");
            ensure_eq!(counts(&l), *model, "bucket counts loaded from ({}, {})", p.0, p.1);
            ensure_eq!(l.as_slice().len(), total_buckets(p.0, p.1), "number of buckets");
            ensure_eq!((l.config().grouping_power(), l.config().max_value_power()), p, "loaded configuration");
        }
    }
    Ok(())
}

fn record(h: &AtomicHistogram, p: (u8, u8), val: u64, model: &mut BTreeMap<usize, u64>, obs: &mut Obs) -> Result<bool, String> {
    let r = no_panic(&format!("increment({val}) on ({}, {})", p.0, p.1), || h.increment(val))?;
    match bucket_of(p.0, p.1, val) {
        Some(b) => {
            if let Err(e) = r {
                return Err(format!("in-range value {val} refused: {e}"));
            }
            *model.entry(b).or_default() += 1;
            Ok(true)
        }
        None => {
            obs.label("out of range");
            ensure_eq!(r, Err(Error::OutOfRange), "recording {val} into ({}, {})", p.0, p.1);
            Ok(false)
        }
    }
}

fn event_seq(c: &Seq, obs: &mut Obs) -> CaseResult {
    let p = c.p;
    let boxed;
    let own;
    let h: &AtomicHistogram = if c.registered {
        boxed = MetricBuilder::new("h").build(AtomicHistogram::new(p.0, p.1));
        &boxed
    } else {
        own = AtomicHistogram::new(p.0, p.1);
        &own
    };
    let mut model = BTreeMap::new();
    let (mut failed, mut good) = (false, 0u32);
    ensure_eq!((h.config().grouping_power(), h.config().max_value_power()), p, "declared configuration");
    ensure!(h.load().is_none(), "a fresh histogram loads something");
    for op in &c.ops {
        match op {
            HOp::Rec(x) => {
                let ok = record(h, p, x.get(p.1), &mut model, obs)?;
                failed |= !ok;
                good += ok as u32;
            }
            HOp::Burst(x, n) => {
                for i in 0..*n {
                    let ok = record(h, p, x.get(p.1).wrapping_add(i as u64), &mut model, obs)?;
                    failed |= !ok;
                    good += ok as u32;
                }
            }
            HOp::Load => {}
        }
        check_load(h, p, &model, failed)?;
        ensure!(h.is_enabled(), "not enabled");
        // reading it as a metric gives the very object
        let other = match h.value() {
            Some(Value::Other(a)) => a.downcast_ref::<AtomicHistogram>().is_some_and(|x| std::ptr::eq(x, h)),
            _ => false,
        };
        ensure!(other, "Metric::value is not the histogram itself");
    }
    if c.registered {
        let view = metrics();
        let e = view.dynamic_metrics().next().ok_or("not listed")?;
        let x = e.as_any().and_then(|a| a.downcast_ref::<AtomicHistogram>()).ok_or("as_any of the entry")?;
        check_load(x, p, &model, failed)?;
    }
    check_load(h, p, &model, failed)?;
    obs.nontrivial(good >= 2 && model.len() >= 2);
    obs.label_if(p.1 == 64, "max_value_power 64");
    obs.label_if(p.0 + 1 == p.1, "linear only");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conc {
    p: (u8, u8),
    threads: Vec<Vec<V>>,
    repeat: u32,
}

fn event_conc(c: &Conc, obs: &mut Obs) -> CaseResult {
    let p = c.p;
    let h = AtomicHistogram::new(p.0, p.1);
    let mut want: BTreeMap<usize, u64> = BTreeMap::new();
    for t in &c.threads {
        for x in t {
            if let Some(b) = bucket_of(p.0, p.1, x.get(p.1)) {
                *want.entry(b).or_default() += c.repeat as u64;
            }
        }
    }
    let go = Barrier::new(c.threads.len() + 1);
    let stop = AtomicBool::new(false);
    let res: Vec<CaseResult> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .map(|vs| {
                let (h, go) = (&h, &go);
                s.spawn(move || -> CaseResult {
                    go.wait();
                    for _ in 0..c.repeat {
                        for x in vs {
                            let v = x.get(p.1);
                            let r = h.increment(v);
                            ensure_eq!(r.is_ok(), bucket_of(p.0, p.1, v).is_some(), "recording {v} succeeded");
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        let reader = {
            let (h, stop, want) = (&h, &stop, &want);
            s.spawn(move || -> CaseResult {
                let mut last: Option<Vec<u64>> = None;
                while !stop.load(Ordering::SeqCst) {
                    match h.load() {
                        None => ensure!(last.is_none(), "a used histogram loads nothing"),
                        Some(l) => {
                            let now = l.as_slice().to_vec();
                            for (i, c) in now.iter().enumerate() {
                                let (lo, hi) = (last.as_ref().map_or(0, |l| l[i]), want.get(&i).copied().unwrap_or(0));
                                ensure!(*c >= lo && *c <= hi, "bucket {i} loaded as {c} after {lo}, with {hi} recordings in all");
                            }
                            last = Some(now);
                        }
                    }
                }
                Ok(())
            })
        };
        go.wait();
        let mut out: Vec<CaseResult> = hs.into_iter().map(|h| h.join().unwrap_or_else(|p| Err(format!("recorder panicked: {}", vcommon::panic_text(&*p))))).collect();
        stop.store(true, Ordering::SeqCst);
        out.push(reader.join().unwrap_or_else(|p| Err(format!("reader panicked: {}", vcommon::panic_text(&*p)))));
        out
    });
    for r in res {
        r?;
    }
    let got = h.load().map(|l| counts(&l)).unwrap_or_default();
    ensure_eq!(got, want, "counts after {} threads x {}", c.threads.len(), c.repeat);
    obs.nontrivial(want.values().any(|n| *n > c.repeat as u64));
    obs.extra_evals(c.threads.iter().map(|t| t.len() as u64).sum::<u64>() * c.repeat as u64);
    Ok(())
}

/// Powers the documentation calls valid.
fn valid(g: u8, m: u8) -> bool {
    (1..=64).contains(&m) && g < m
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule("Configurations with grouping power 0-8 (0-14 in the sweep) and every max-value power; sequences of up to 24 recordings, bursts and loads with values biased to powers of two, bucket edges and 2^max_value_power, against an independently written bucket formula; 2-8 concurrent recorders (racing on first use) with a concurrent loader; all power pairs with m <= 70 for construction. Non-trivial: at least two distinct buckets hit (sequences), some bucket hit by two threads' programs (concurrency).");
    ctx.assume("grouping powers above 20 are not exercised when valid (bucket arrays of gigabytes; the histogram crate overflows around 27)");
    let op = || prop_oneof![6 => v().prop_map(HOp::Rec), 1 => (v(), 0u16..300).prop_map(|(v, n)| HOp::Burst(v, n)), 1 => Just(HOp::Load)];
    ctx.check_par(
        "sequence",
        ctx.cases(240_000, 12),
        || (powers(), proptest::collection::vec(op(), 0..24)).prop_map(|(p, ops)| Seq { p, ops, registered: false }),
        event_seq,
    );
    ctx.check(
        "registered",
        ctx.cases(30_000, 8),
        (powers(), proptest::collection::vec(op(), 0..12)).prop_map(|(p, ops)| Seq { p, ops, registered: true }),
        event_seq,
    );
    // every configuration, at every power of two and its neighbours
    ctx.check(
        "sweep",
        ctx.cases(4000, 5),
        (0u8..=14).prop_flat_map(|g| (Just(g), (g + 1)..=64)),
        |p: &(u8, u8), obs| {
            let h = AtomicHistogram::new(p.0, p.1);
            let mut model = BTreeMap::new();
            for k in 0..64u32 {
                for d in [-2i64, -1, 0, 1, 2] {
                    record(&h, *p, (1u64 << k).wrapping_add(d as u64), &mut model, obs)?;
                }
                // first and last value of every 8th bucket of this power of two
                if k >= p.0 as u32 {
                    let w = 1u64 << (k - p.0 as u32);
                    for b in (0..(1u64 << p.0)).step_by(((1usize << p.0) / 8).max(1)) {
                        let lo = (1u64 << k) + b * w;
                        record(&h, *p, lo, &mut model, obs)?;
                        record(&h, *p, lo + (w - 1), &mut model, obs)?;
                    }
                }
            }
            check_load(&h, *p, &model, true)?;
            obs.nontrivial(true);
            Ok(())
        },
    );
    ctx.check_conc(
        "concurrent",
        ctx.cases(3000, 8),
        (
            prop_oneof![(0u8..3, 3u8..8), (0u8..5, 10u8..=64)],
            proptest::collection::vec(proptest::collection::vec(prop_oneof![2 => v(), 3 => (0u64..3).prop_map(V::Any)], 1..5), 2..=8),
            prop_oneof![4 => 1u32..20, 3 => 200u32..1500],
        )
            .prop_map(|(p, threads, repeat)| Conc { p, threads, repeat }),
        event_conc,
    );
    construction(ctx, |g, m| {
        AtomicHistogram::new(g, m).config()
    });
}

fn construction(ctx: &Ctx, make: impl Fn(u8, u8) -> metriken::histogram::Config) {
    ctx.check(
        "construct",
        ctx.cases(6_000, 3),
        prop_oneof![4 => (0u8..22, 0u8..70), 1 => (0u8..22, any::<u8>()), 1 => (60u8..=255, 0u8..=60)],
        |(g, m): &(u8, u8), obs| {
            let ok = valid(*g, *m);
            obs.nontrivial(!ok);
            match catch_unwind(AssertUnwindSafe(|| make(*g, *m))) {
                Ok(c) => {
                    ensure!(ok, "invalid powers ({g}, {m}) accepted");
                    ensure_eq!((c.grouping_power(), c.max_value_power()), (*g, *m), "configuration");
                    ensure_eq!(c.total_buckets(), total_buckets(*g, *m), "buckets of ({g}, {m})");
                }
                Err(p) => ensure!(!ok, "valid powers ({g}, {m}) panic: {}", vcommon::panic_text(&*p)),
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Data {
    /// right length
    Full(Vec<u64>),
    Zero,
    Max,
    /// right length plus this many (or fewer)
    Off(i16, u64),
    Empty,
    /// the length of another configuration
    Other((u8, u8), u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    p: (u8, u8),
    ops: Vec<Data>,
}

fn data(d: &Data, p: (u8, u8)) -> Vec<u64> {
    let n = total_buckets(p.0, p.1);
    match d {
        Data::Full(v) => (0..n).map(|i| if v.is_empty() { i as u64 } else { v[i % v.len()].wrapping_add((i / v.len()) as u64) }).collect(),
        Data::Zero => vec![0; n],
        Data::Max => vec![u64::MAX; n],
        Data::Off(d, v) => vec![*v; (n as i64 + *d as i64).max(0) as usize],
        Data::Empty => vec![],
        Data::Other(q, v) => vec![*v; total_buckets(q.0, q.1)],
    }
}

fn bulk_seq(c: &Bulk, obs: &mut Obs) -> CaseResult {
    let p = c.p;
    let h = RwLockHistogram::new(p.0, p.1);
    ensure_eq!((h.config().grouping_power(), h.config().max_value_power()), p, "declared configuration");
    ensure!(h.load().is_none(), "a fresh histogram loads something");
    let mut model: Option<Vec<u64>> = None;
    let (mut ok, mut bad) = (false, false);
    for d in &c.ops {
        let buf = data(d, p);
        let r = no_panic("update_from", || h.update_from(&buf))?;
        if buf.len() == total_buckets(p.0, p.1) {
            ok = true;
            ensure_eq!(r, Ok(()), "update of the right length");
            model = Some(buf);
        } else {
            bad = true;
            ensure_eq!(r, Err(Error::IncompatibleParameters), "update of length {} into {} buckets", buf.len(), total_buckets(p.0, p.1));
        }
        for _ in 0..2 {
            let l = h.load();
            if let Some(l) = &l {
                ensure_eq!((l.config().grouping_power(), l.config().max_value_power()), p, "loaded configuration");
            }
            ensure_eq!(l.map(|l| l.as_slice().to_vec()), model, "counts loaded after {d:?}");
        }
        let other = match h.value() {
            Some(Value::Other(a)) => a.downcast_ref::<RwLockHistogram>().is_some_and(|x| std::ptr::eq(x, &h)),
            _ => false,
        };
        ensure!(other && h.is_enabled(), "Metric::value is not the histogram itself");
    }
    obs.nontrivial(ok && bad);
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule("Sequences of 0-16 bulk updates of right and wrong lengths (off by a few, zero, another configuration's) over generated configurations (up to 16 384 buckets to a power of two), against a model keeping the last update of the right length; (concurrent) writers repeat updates, each filling all buckets with values that identify it, while loaders check that every loaded histogram is entirely one update or the empty start. Non-trivial: both an accepted and a refused update (sequence), at least two different updates seen by one loader (concurrent).");
    let data_s = || {
        prop_oneof![
            5 => proptest::collection::vec(gen::u64_any(), 0..6).prop_map(Data::Full),
            1 => Just(Data::Zero),
            1 => Just(Data::Max),
            3 => (prop_oneof![-3i16..0, 1i16..4, -300i16..0, 1i16..300], gen::u64_any()).prop_map(|(d, v)| Data::Off(d, v)),
            1 => Just(Data::Empty),
            1 => (powers(), gen::u64_any()).prop_map(|(p, v)| Data::Other(p, v)),
        ]
    };
    ctx.check_par(
        "sequence",
        ctx.cases(150_000, 6),
        || (powers(), proptest::collection::vec(data_s(), 0..16)).prop_map(|(p, ops)| Bulk { p, ops }),
        bulk_seq,
    );
    ctx.check_par(
        "large",
        ctx.cases(160, 10),
        || (vcommon::gen::powers_large(), proptest::collection::vec(data_s(), 0..4)).prop_map(|(p, ops)| Bulk { p, ops }),
        bulk_seq,
    );
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct BConc {
        p: (u8, u8),
        writers: usize,
        readers: usize,
        repeat: u32,
    }
    ctx.check_conc(
        "concurrent",
        ctx.cases(2000, 6),
        (prop_oneof![2 => powers(), 2 => (6u8..=10, 20u8..=64)], 1usize..=4, 1usize..=4, prop_oneof![1 => Just(1u32), 4 => 50u32..400])
            .prop_map(|(p, writers, readers, repeat)| BConc { p, writers, readers, repeat }),
        |c: &BConc, obs| {
            let h = RwLockHistogram::new(c.p.0, c.p.1);
            let n = total_buckets(c.p.0, c.p.1);
            let go = Barrier::new(c.writers + c.readers);
            let stop = AtomicBool::new(false);
            let res: Vec<Result<u64, String>> = std::thread::scope(|s| {
                let ws: Vec<_> = (0..c.writers)
                    .map(|w| {
                        let (h, go) = (&h, &go);
                        s.spawn(move || -> Result<u64, String> {
                            let mut buf = vec![0u64; n];
                            go.wait();
                            for k in 0..c.repeat {
                                // bucket i of update u holds u + i
                                let u = 1 + ((w as u64) << 40) + ((k as u64) << 20);
                                for (i, b) in buf.iter_mut().enumerate() {
                                    *b = u + i as u64;
                                }
                                h.update_from(&buf).map_err(|e| format!("update refused: {e}"))?;
                                if k % 7 == 0 && h.update_from(&buf[1..]).is_ok() {
                                    return Err("short update accepted".into());
                                }
                            }
                            Ok(0)
                        })
                    })
                    .collect();
                let rs: Vec<_> = (0..c.readers)
                    .map(|_| {
                        let (h, go, stop) = (&h, &go, &stop);
                        s.spawn(move || -> Result<u64, String> {
                            go.wait();
                            let (mut last, mut changes) = (0u64, 0u64);
                            let mut last_of: BTreeMap<u64, u64> = BTreeMap::new();
                            loop {
                                let end = stop.load(Ordering::SeqCst);
                                if let Some(l) = h.load() {
                                    let v = l.as_slice();
                                    let u = v[0];
                                    for (i, x) in v.iter().enumerate() {
                                        let want = if u == 0 { 0 } else { u + i as u64 };
                                        if *x != want {
                                            return Err(format!("mixture: bucket 0 is {u} (update {:#x}) but bucket {i} is {x:#x}", u));
                                        }
                                    }
                                    if u != 0 {
                                        // one writer's updates are seen in order
                                        let w = last_of.entry(u >> 40).or_default();
                                        if u < *w {
                                            return Err(format!("loaded update {u:#x} after the later {w:#x} of the same writer"));
                                        }
                                        *w = u;
                                    } else if last != 0 {
                                        return Err("an updated histogram loads empty".into());
                                    }
                                    changes += (u != last) as u64;
                                    last = u;
                                } else if last != 0 {
                                    return Err("an updated histogram loads nothing".into());
                                }
                                if end {
                                    return Ok(changes);
                                }
                            }
                        })
                    })
                    .collect();
                let die = |p: Box<dyn std::any::Any + Send>| Err(format!("thread panicked: {}", vcommon::panic_text(&*p)));
                let mut out: Vec<_> = ws.into_iter().map(|h| h.join().unwrap_or_else(die)).collect();
                stop.store(true, Ordering::SeqCst);
                out.extend(rs.into_iter().map(|h| h.join().unwrap_or_else(die)));
                out
            });
            for r in res {
                let changes = r?;
                obs.nontrivial(changes >= 2);
                obs.extra_evals(changes);
            }
            let l = h.load().ok_or("nothing to load after the updates")?;
            let k = c.repeat as u64 - 1;
            ensure!(
                (0..c.writers as u64).any(|w| l.as_slice()[0] == 1 + (w << 40) + (k << 20)),
                "the final state is no writer's last update: {:#x}",
                l.as_slice()[0]
            );
            Ok(())
        },
    );
    construction(ctx, |g, m| RwLockHistogram::new(g, m).config());
}
