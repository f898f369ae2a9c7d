//! C24: snapshots while metrics are updated, registered and dropped.
use std::any::Any;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

use metriken::*;
use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

use crate::model::{norm, Labels, Norm};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// updaters of the metrics that stay
    updaters: u8,
    /// per churning thread: per slot, boxed or pinned, and whether it is registered a second time
    churn: Vec<Vec<(bool, bool)>>,
    readers: Vec<u8>,
    rounds: u32,
    pace: u8,
    filtered: bool,
    /// whether the metrics that come and go in a slot all have one name
    #[serde(default)]
    same_names: bool,
    /// further metrics that stay
    #[serde(default)]
    crowd: usize,
}

/// An update is counted in `begun` before and in `done` after it is made.
#[derive(Default)]
struct Stamp {
    begun: AtomicU64,
    done: AtomicU64,
}

const P: (u8, u8) = (1, 6);

struct Stable {
    counter: DynBoxedMetric<Counter>,
    gauge: DynBoxedMetric<Gauge>,
    event: DynBoxedMetric<AtomicHistogram>,
    bulk: DynBoxedMetric<RwLockHistogram>,
    lazy: DynBoxedMetric<Lazy<Counter, fn() -> Counter>>,
    constant: DynBoxedMetric<Gauge>,
    counts: DynBoxedMetric<Step>,
    falls: DynBoxedMetric<Step>,
    crowd: Vec<DynBoxedMetric<Counter>>,
}

/// Moves on whenever it is read, in growing steps.
struct Step(AtomicU64, bool);
fn step(n: u64) -> u64 {
    n * n * 7 + 3
}
impl Metric for Step {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        let v = step(self.0.fetch_add(1, SeqCst) + 1);
        Some(if self.1 { Value::Gauge(-(v as i64)) } else { Value::Counter(v) })
    }
}

fn built(name: &str) -> MetricBuilder {
    built_as(name, name)
}
fn built_as(name: &str, who: &str) -> MetricBuilder {
    MetricBuilder::new(name.to_string()).metadata("who", who.to_string()).description(format!("about {who}"))
}

fn want_md(name: &str, hist: bool) -> Labels {
    let mut m: Labels = [("who".to_string(), name.to_string()), ("description".to_string(), format!("about {name}"))].into();
    if hist {
        m.insert("grouping_power".into(), P.0.to_string());
        m.insert("max_value_power".into(), P.1.to_string());
    }
    m
}

struct SlotState {
    begun: AtomicU64,
    up: AtomicU64,
    going: AtomicU64,
    gone: AtomicU64,
}

enum Held {
    _B(DynBoxedMetric<Counter>),
    P(#[allow(dead_code)] Pin<Box<DynPinnedMetric<Counter>>>),
}

fn spin(n: u32) {
    for i in 0..n {
        if i % 16 == 15 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

/// The one reading of that name.
fn only<'a, T>(v: &'a [T], name: &str, get: impl Fn(&T) -> &str) -> Result<&'a T, String> {
    let all: Vec<&T> = v.iter().filter(|r| get(r) == name).collect();
    ensure_eq!(all.len(), 1, "readings of {name:?}, which is registered throughout");
    Ok(all[0])
}

#[derive(Clone, Default)]
struct Last {
    counter: u64,
    lazy: Option<u64>,
    buckets: Vec<u64>,
}

struct Bounds {
    counter: u64,
    gauge: u64,
    event: Vec<u64>,
    bulk: u64,
    lazy: u64,
    steps: (u64, u64),
}

fn churn_name(slot: usize, inc: u64, again: bool) -> String {
    format!("ch{slot}.{inc}{}", if again { ".again" } else { "" })
}
/// The name it is registered under: its own, or the slot's.
fn churn_shown(slot: usize, inc: u64, again: bool, same: bool) -> String {
    if same {
        format!("ch{slot}{}", if again { ".again" } else { "" })
    } else {
        churn_name(slot, inc, again)
    }
}
fn churn_value(slot: usize, inc: u64) -> u64 {
    (slot as u64) << 40 | inc
}

struct World<'a> {
    stable: &'a Stable,
    counter: Stamp,
    gauge: Stamp,
    /// per updater
    event: Vec<Stamp>,
    bulk: Stamp,
    lazy: Stamp,
    slots: Vec<SlotState>,
    /// per slot: registered a second time
    again: Vec<bool>,
    same_names: bool,
}

impl World<'_> {
    fn low(&self) -> Bounds {
        Bounds {
            counter: self.counter.done.load(SeqCst),
            gauge: self.gauge.done.load(SeqCst),
            event: self.event.iter().map(|s| s.done.load(SeqCst)).collect(),
            bulk: self.bulk.done.load(SeqCst),
            lazy: self.lazy.done.load(SeqCst),
            steps: (self.stable.counts.0.load(SeqCst), self.stable.falls.0.load(SeqCst)),
        }
    }
    fn high(&self) -> Bounds {
        Bounds {
            counter: self.counter.begun.load(SeqCst),
            gauge: self.gauge.begun.load(SeqCst),
            event: self.event.iter().map(|s| s.begun.load(SeqCst)).collect(),
            bulk: self.bulk.begun.load(SeqCst),
            lazy: self.lazy.begun.load(SeqCst),
            steps: (self.stable.counts.0.load(SeqCst), self.stable.falls.0.load(SeqCst)),
        }
    }

    fn judge(&self, s: &Norm, lo: &Bounds, hi: &Bounds, last: &mut Last) -> CaseResult {
        let c = only(&s.counters, "s.counter", |r| &r.0)?;
        ensure!(lo.counter <= c.1 && c.1 <= hi.counter, "the counter reads {}, but between {} and {} increments had been made", c.1, lo.counter, hi.counter);
        ensure_eq!(c.2, want_md("s.counter", false), "metadata of the counter");
        ensure!(c.1 >= last.counter, "the counter went back from {} to {}", last.counter, c.1);
        last.counter = c.1;

        let g = only(&s.gauges, "s.gauge", |r| &r.0)?;
        // set to 0, -1, -2, ...
        ensure!(g.1 <= 0 && lo.gauge <= g.1.unsigned_abs() && g.1.unsigned_abs() <= hi.gauge, "the gauge reads {}, but was set to values from -{} to -{} meanwhile", g.1, lo.gauge, hi.gauge);
        ensure_eq!(g.2, want_md("s.gauge", false), "metadata of the gauge");
        let k = only(&s.gauges, "s.constant", |r| &r.0)?;
        ensure_eq!(k.1, 42, "a gauge that never changes");
        let k = only(&s.counters, "s.counts", |r| &r.0)?;
        ensure!((lo.steps.0 + 1..=hi.steps.0).any(|n| step(n) == k.1), "a counter reads {}, which it never was (it went from {} to {})", k.1, step(lo.steps.0), step(hi.steps.0));
        let k = only(&s.gauges, "s.falls", |r| &r.0)?;
        ensure!((lo.steps.1 + 1..=hi.steps.1).any(|n| -(step(n) as i64) == k.1), "a gauge reads {}, which it never was (it went from -{} to -{})", k.1, step(lo.steps.1), step(hi.steps.1));
        let mut seen = vec![0u8; self.stable.crowd.len()];
        for r in &s.counters {
            if let Some(i) = r.0.strip_prefix("k.").and_then(|i| i.parse::<usize>().ok()) {
                ensure!(i < seen.len() && r.1 == i as u64, "{:?} reads {}", r.0, r.1);
                seen[i] += 1;
            }
        }
        if let Some(i) = seen.iter().position(|n| *n != 1) {
            return Err(format!("{} readings of \"k.{i}\", one of {} metrics that stay", seen[i], seen.len()));
        }

        // updater i records only in bucket i
        match s.histograms.iter().filter(|r| r.0 == "s.event").collect::<Vec<_>>()[..] {
            [] => {
                ensure!(lo.event.iter().all(|n| *n == 0), "the event histogram is missing after {:?} recordings", lo.event);
                ensure!(last.buckets.is_empty(), "the event histogram has disappeared");
            }
            [h] => {
                ensure_eq!(h.1, P, "powers of the event histogram");
                ensure_eq!(h.2.len(), gen::total_buckets(P.0, P.1), "buckets of the event histogram");
                for (i, n) in h.2.iter().enumerate() {
                    let (l, u) = (lo.event.get(i).copied().unwrap_or(0), hi.event.get(i).copied().unwrap_or(0));
                    ensure!(l <= *n && *n <= u, "bucket {i} of the event histogram holds {n}, but between {l} and {u} recordings had been made");
                    ensure!(last.buckets.get(i).is_none_or(|o| o <= n), "bucket {i} of the event histogram went back to {n}");
                }
                ensure_eq!(h.3, want_md("s.event", true), "metadata of the event histogram");
                last.buckets = h.2.clone();
            }
            ref more => return Err(format!("{} readings of one histogram", more.len())),
        }
        match s.histograms.iter().filter(|r| r.0 == "s.bulk").collect::<Vec<_>>()[..] {
            [] => ensure!(lo.bulk == 0, "the bulk histogram is missing after {} updates", lo.bulk),
            [h] => {
                let n = h.2[0];
                ensure!(h.2.iter().all(|x| *x == n), "the bulk histogram mixes updates: {:?}", h.2);
                // while the first update is under way the (empty) start may be seen
                ensure!(hi.bulk > 0 && lo.bulk <= n && n <= hi.bulk, "the bulk histogram holds update {n}, but updates {} to {} were current meanwhile", lo.bulk, hi.bulk);
                ensure_eq!(h.3, want_md("s.bulk", true), "metadata of the bulk histogram");
            }
            ref more => return Err(format!("{} readings of one histogram", more.len())),
        }
        // starts at 1000
        match s.counters.iter().filter(|r| r.0 == "s.lazy").collect::<Vec<_>>()[..] {
            [] => ensure!(lo.lazy == 0 && last.lazy.is_none(), "the lazy counter is missing after {} increments", lo.lazy),
            [c] => {
                ensure!(hi.lazy > 0, "a lazy counter nobody has touched is read");
                ensure!(1000 + lo.lazy <= c.1 && c.1 <= 1000 + hi.lazy, "the lazy counter reads {}, but between {} and {} increments had been made", c.1, lo.lazy, hi.lazy);
                ensure!(last.lazy.is_none_or(|o| o <= c.1), "the lazy counter went back to {}", c.1);
                last.lazy = Some(c.1);
            }
            ref more => return Err(format!("{} readings of one lazy counter", more.len())),
        }
        Ok(())
    }

    /// The churning metrics; `rejected` says which the filter leaves out.
    fn judge_churn(&self, s: &Norm, gone: &[u64], up: &[u64], going: &[u64], filtered: bool) -> Result<usize, String> {
        let mut seen: BTreeMap<usize, u64> = BTreeMap::new();
        for (name, value, md) in s.counters.iter().filter(|r| r.0.starts_with("ch")) {
            let again = name.ends_with(".again");
            // the value says which metric of the slot it is
            let (slot, inc) = ((value >> 40) as usize, value & ((1 << 40) - 1));
            ensure!(slot < self.slots.len() && inc > 0 && inc <= self.slots[slot].begun.load(SeqCst), "{name:?} reads {value}, which no metric ever held");
            ensure_eq!(name, &churn_shown(slot, inc, again, self.same_names), "name of the counter that holds {value}");
            // labels come from building the metric, the description from its latest registration
            let want: Labels = [("who".to_string(), churn_name(slot, inc, false)), ("description".to_string(), format!("about {}", churn_name(slot, inc, again)))].into();
            ensure_eq!(md, &want, "metadata of {name:?}");
            ensure!(!again || self.again[slot], "{name:?} was never registered under that name");
            ensure!(inc > gone[slot], "a snapshot contains {name:?}, whose drop had completed before it was taken");
            ensure!(!filtered || slot % 2 == 0, "a snapshot contains {name:?}, which the filter refuses");
            ensure!(seen.insert(slot, inc).is_none(), "slot {slot} appears twice in one snapshot");
        }
        ensure!(s.gauges.iter().all(|r| !r.0.starts_with("ch")) && s.histograms.iter().all(|r| !r.0.starts_with("ch")), "a counter is filed under another kind");
        for slot in 0..self.slots.len() {
            if up[slot] > going[slot] && !(filtered && slot % 2 == 1) {
                ensure!(seen.get(&slot) == Some(&up[slot]), "a metric registered throughout (slot {slot}) is not in the snapshot");
            }
        }
        Ok(seen.len())
    }
}

fn even(e: &MetricEntry) -> bool {
    match e.name().strip_prefix("ch") {
        Some(r) => r.split('.').next().and_then(|s| s.parse::<usize>().ok()).is_some_and(|s| s % 2 == 0),
        None => true,
    }
}

fn run(c: &Case, obs: &mut Obs) -> CaseResult {
    let stable = Stable {
        counter: built("s.counter").build(Counter::new()),
        gauge: built("s.gauge").build(Gauge::new()),
        event: built("s.event").build(AtomicHistogram::new(P.0, P.1)),
        bulk: built("s.bulk").build(RwLockHistogram::new(P.0, P.1)),
        lazy: built("s.lazy").build(Lazy::new((|| Counter::with_value(1000)) as fn() -> Counter)),
        constant: built("s.constant").build(Gauge::with_value(42)),
        counts: built("s.counts").build(Step(0.into(), false)),
        falls: built("s.falls").build(Step(0.into(), true)),
        crowd: (0..c.crowd).map(|i| built(&format!("k.{i}")).build(Counter::with_value(i as u64))).collect(),
    };
    let slots: usize = c.churn.iter().map(|w| w.len()).sum();
    let world = World {
        stable: &stable,
        counter: Default::default(),
        gauge: Default::default(),
        event: (0..c.updaters).map(|_| Stamp::default()).collect(),
        bulk: Default::default(),
        lazy: Default::default(),
        slots: (0..slots).map(|_| SlotState { begun: 0.into(), up: 0.into(), going: 0.into(), gone: 0.into() }).collect(),
        again: c.churn.iter().flatten().map(|(boxed, again)| !boxed && *again).collect(),
        same_names: c.same_names,
    };
    let make = || {
        let mut b = mx::SnapshotterBuilder::new().metadata("k".into(), "v".into());
        if c.filtered {
            b = b.filter(even);
        }
        b.build()
    };
    let stop = AtomicBool::new(false);
    let taken = AtomicU64::new(0);
    let moving = AtomicU64::new(0);
    let churned = AtomicU64::new(0);
    let leftover: Mutex<Vec<Held>> = Mutex::default();
    let go = Barrier::new(c.updaters as usize + c.churn.len() + c.readers.len());
    let results: Vec<CaseResult> = std::thread::scope(|sc| {
        let mut work = vec![];
        for u in 0..c.updaters as usize {
            let (w, go) = (&world, &go);
            work.push(sc.spawn(move || -> CaseResult {
                go.wait();
                for r in 0..c.rounds as u64 {
                    w.counter.begun.fetch_add(1, SeqCst);
                    w.stable.counter.increment();
                    w.counter.done.fetch_add(1, SeqCst);
                    w.event[u].begun.fetch_add(1, SeqCst);
                    w.stable.event.increment(u as u64).map_err(|e| format!("recording failed: {e:?}"))?;
                    w.event[u].done.fetch_add(1, SeqCst);
                    if u == 0 {
                        w.gauge.begun.store(r + 1, SeqCst);
                        w.stable.gauge.set(-(r as i64 + 1));
                        w.gauge.done.store(r + 1, SeqCst);
                        w.bulk.begun.store(r + 1, SeqCst);
                        w.stable.bulk.update_from(&vec![r + 1; gen::total_buckets(P.0, P.1)]).map_err(|e| format!("update failed: {e:?}"))?;
                        w.bulk.done.store(r + 1, SeqCst);
                    }
                    if r >= c.rounds as u64 / 2 {
                        w.lazy.begun.fetch_add(1, SeqCst);
                        w.stable.lazy.increment();
                        w.lazy.done.fetch_add(1, SeqCst);
                    }
                    spin(c.pace as u32);
                }
                Ok(())
            }));
        }
        let mut base = 0;
        for part in &c.churn {
            let (w, go, leftover) = (&world, &go, &leftover);
            let first = base;
            base += part.len();
            work.push(sc.spawn(move || -> CaseResult {
                let mut held: Vec<Option<Held>> = part.iter().map(|_| None).collect();
                let mut inc = 0;
                go.wait();
                for r in 0..c.rounds as usize {
                    let k = r % part.len();
                    let (boxed, again) = part[k];
                    let slot = first + k;
                    let st = &w.slots[slot];
                    match held[k].take() {
                        None => {
                            inc += 1;
                            let m = Counter::with_value(churn_value(slot, inc));
                            let who = churn_name(slot, inc, false);
                            let name = churn_shown(slot, inc, false, c.same_names);
                            st.begun.store(inc, SeqCst);
                            held[k] = Some(if boxed {
                                Held::_B(built_as(&name, &who).build(m))
                            } else {
                                let (p, e) = built_as(&name, &who).build_pinned(m);
                                let p = Box::pin(p);
                                p.as_ref().register(e);
                                if again {
                                    spin(c.pace as u32);
                                    p.as_ref().register(built_as(&churn_shown(slot, inc, true, c.same_names), &churn_name(slot, inc, true)).into_entry());
                                }
                                Held::P(p)
                            });
                            st.up.store(inc, SeqCst);
                        }
                        Some(h) => {
                            let id = st.up.load(SeqCst);
                            st.going.store(id, SeqCst);
                            drop(h);
                            st.gone.store(id, SeqCst);
                        }
                    }
                    spin(c.pace as u32);
                }
                // the rest stays registered until everyone is done
                leftover.lock().unwrap().extend(held.into_iter().flatten());
                Ok(())
            }));
        }
        let rs: Vec<_> = c
            .readers
            .iter()
            .map(|pace| {
                let (w, go, stop, taken, moving, churned) = (&world, &go, &stop, &taken, &moving, &churned);
                let snapshotter = make();
                sc.spawn(move || -> CaseResult {
                    go.wait();
                    let mut last = Last::default();
                    while !stop.load(SeqCst) {
                        let lo = w.low();
                        let gone: Vec<u64> = w.slots.iter().map(|s| s.gone.load(SeqCst)).collect();
                        let up: Vec<u64> = w.slots.iter().map(|s| s.up.load(SeqCst)).collect();
                        let s = snapshotter.snapshot();
                        let going: Vec<u64> = w.slots.iter().map(|s| s.going.load(SeqCst)).collect();
                        let hi = w.high();
                        let s = norm(&s);
                        let was = last.counter;
                        w.judge(&s, &lo, &hi, &mut last)?;
                        let n = w.judge_churn(&s, &gone, &up, &going, c.filtered)?;
                        ensure_eq!(s.md, Labels::from([("k".to_string(), "v".to_string())]), "metadata of the snapshot");
                        taken.fetch_add(1, SeqCst);
                        if last.counter > was {
                            moving.fetch_add(1, SeqCst);
                        }
                        if n > 0 {
                            churned.fetch_add(1, SeqCst);
                        }
                        spin(*pace as u32);
                    }
                    Ok(())
                })
            })
            .collect();
        let die = |p: Box<dyn Any + Send>| Err(format!("thread panicked: {}", vcommon::panic_text(&*p)));
        let mut out: Vec<CaseResult> = work.into_iter().map(|h| h.join().unwrap_or_else(die)).collect();
        stop.store(true, SeqCst);
        out.extend(rs.into_iter().map(|h| h.join().unwrap_or_else(die)));
        out
    });
    for r in results {
        r?;
    }
    // all is quiet: the next snapshot shows everything
    let lo = world.low();
    let s = norm(&make().snapshot());
    let hi = world.high();
    world.judge(&s, &lo, &hi, &mut Last::default()).map_err(|e| format!("after the activity: {e}"))?;
    let up: Vec<u64> = world.slots.iter().map(|s| s.up.load(SeqCst)).collect();
    let gone: Vec<u64> = world.slots.iter().map(|s| s.gone.load(SeqCst)).collect();
    world.judge_churn(&s, &gone, &up, &gone, c.filtered).map_err(|e| format!("after the activity: {e}"))?;
    for (i, again) in world.again.iter().enumerate() {
        if up[i] > gone[i] && !(c.filtered && i % 2 == 1) {
            let name = churn_shown(i, up[i], *again, c.same_names);
            ensure!(s.counters.iter().any(|r| r.0 == name), "after the activity: {name:?} is not in the snapshot");
        }
    }
    drop(leftover);
    let _ = &stable.constant;
    obs.extra_evals(taken.load(SeqCst));
    obs.nontrivial(moving.load(SeqCst) >= 3);
    obs.label_if(moving.load(SeqCst) >= 3, "three snapshots saw the counter move");
    obs.label_if(churned.load(SeqCst) >= 3, "three snapshots saw passing metrics");
    Ok(())
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule("1-4 threads update metrics that stay (counter, gauge, event histogram, bulk histogram, a lazy counter created half-way, two that move on whenever they are read, up to 400 that only stay), 1-3 threads register, register again and drop others, 1-3 threads take snapshots; every reading is bounded by stamps the updaters publish before and after each update, presence by stamps around registering and dropping, and a last snapshot must be exact. evaluations counts snapshots; non-trivial: at least three snapshots saw the counter move");
    ctx.assume("the operating system's scheduler picks the interleavings");
    ctx.check_conc(
        "activity",
        ctx.cases(1500, 8),
        (
            1u8..=4,
            proptest::collection::vec(proptest::collection::vec((any::<bool>(), any::<bool>()), 1..5), 1..=3),
            proptest::collection::vec(0u8..60, 1..=3),
            prop_oneof![2 => 100u32..400, 1 => 800u32..2000],
            0u8..80,
            any::<bool>(),
            any::<bool>(),
            prop_oneof![8 => Just(0usize), 1 => 20usize..150, 1 => 200usize..400],
        )
            .prop_map(|(updaters, churn, readers, rounds, pace, filtered, same_names, crowd)| Case { updaters, churn, readers, rounds, pace, filtered, same_names, crowd }),
        run,
    );
}
