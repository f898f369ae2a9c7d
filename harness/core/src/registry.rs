//! C03: the listing against a model of the live dynamic metrics.
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Mutex;

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

use crate::arena::{arena, SLOTS};
use crate::statics;
use crate::util::{addr, builder, last_wins, seen, Reading, Seen, Wide, Zst};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Counter,
    Gauge,
    LazyCounter,
    LazyGauge,
    Hist,
    Rw,
    Zst,
    Wide,
    Probe,
    Byte,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// MetricBuilder::build
    Boxed,
    /// build_pinned, pinned on the heap
    Pinned,
    /// build_pinned, pinned at a chosen address
    Placed(usize),
    /// build_pinned, pinned right next to others
    Packed(u16),
    /// the deprecated DynBoxedMetric::new
    OldBoxed,
    /// the deprecated DynPinnedMetric::new
    OldPinned,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum DropHow {
    Direct,
    Thread,
    Unwind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Build { slot: usize, how: How, kind: Kind, name: String, desc: Option<String>, md: Vec<(String, String)>, register: bool, thread: bool },
    /// register under another name and description (pinned metrics)
    Register { slot: usize, name: String, desc: Option<String> },
    Poke { slot: usize, by: u8 },
    Move { slot: usize },
    Swap { a: usize, b: usize },
    Drop { slot: usize, how: DropHow },
    /// builders and pinned metrics given up without registering
    Abandon { name: String, what: u8 },
    Bulk { n: u16 },
    DropBulk { every: u8 },
}

/// Complaints of destructors.
static PROBE_ERRORS: Mutex<Vec<String>> = Mutex::new(vec![]);

/// A metric that looks at the listing when it is destroyed.
pub struct Probe(pub Counter);
impl Metric for Probe {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0.value()))
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        let view = metrics();
        for e in view.iter() {
            if e.as_any().and_then(|a| a.downcast_ref::<Probe>()).is_some_and(|p| std::ptr::eq(p, self)) {
                PROBE_ERRORS.lock().unwrap().push(format!("metric {:?} is still listed while its destructor runs", e.name()));
            }
        }
    }
}

/// One byte, and disabled while it is zero.
pub struct Byte(std::sync::atomic::AtomicU8);
impl Metric for Byte {
    fn is_enabled(&self) -> bool {
        self.0.load(std::sync::atomic::Ordering::SeqCst) != 0
    }
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Gauge(self.0.load(std::sync::atomic::Ordering::SeqCst) as i64))
    }
}

/// Changing a metric, and what it must report then.
pub trait Poke: Metric + Sized {
    fn fresh() -> Self;
    fn poke(&self, by: u8);
    /// (enabled, reading) after the given pokes
    fn model(pokes: &[u8]) -> (bool, Reading);
}
fn sum(p: &[u8]) -> u64 {
    p.iter().map(|b| *b as u64).sum()
}
impl Poke for Counter {
    fn fresh() -> Self {
        Counter::new()
    }
    fn poke(&self, by: u8) {
        self.add(by as u64);
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        (true, Reading::Counter(sum(p)))
    }
}
impl Poke for Gauge {
    fn fresh() -> Self {
        Gauge::new()
    }
    fn poke(&self, by: u8) {
        self.sub(by as i64);
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        (true, Reading::Gauge(-(sum(p) as i64)))
    }
}
impl Poke for LazyCounter {
    fn fresh() -> Self {
        LazyCounter::new(Counter::default)
    }
    fn poke(&self, by: u8) {
        self.add(by as u64);
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        if p.is_empty() {
            (false, Reading::Nothing)
        } else {
            (true, Reading::Counter(sum(p)))
        }
    }
}
impl Poke for LazyGauge {
    fn fresh() -> Self {
        LazyGauge::new(|| Gauge::with_value(7))
    }
    fn poke(&self, by: u8) {
        self.add(by as i64);
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        if p.is_empty() {
            (false, Reading::Nothing)
        } else {
            (true, Reading::Gauge(7 + sum(p) as i64))
        }
    }
}
impl Poke for AtomicHistogram {
    fn fresh() -> Self {
        AtomicHistogram::new(2, 9)
    }
    fn poke(&self, by: u8) {
        self.increment(by as u64).unwrap();
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        (true, if p.is_empty() { Reading::Empty } else { Reading::Total(p.len() as u64) })
    }
}
impl Poke for RwLockHistogram {
    fn fresh() -> Self {
        RwLockHistogram::new(0, 1)
    }
    fn poke(&self, by: u8) {
        self.update_from(&[by as u64, 1]).unwrap();
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        (true, p.last().map_or(Reading::Empty, |b| Reading::Total(*b as u64 + 1)))
    }
}
impl Poke for Zst {
    fn fresh() -> Self {
        Zst
    }
    fn poke(&self, _: u8) {}
    fn model(_: &[u8]) -> (bool, Reading) {
        (false, Reading::Nothing)
    }
}
impl Poke for Wide {
    fn fresh() -> Self {
        Wide::new()
    }
    fn poke(&self, by: u8) {
        self.second.add(by as u64);
    }
    fn model(_: &[u8]) -> (bool, Reading) {
        (true, Reading::Other)
    }
}
impl Poke for Probe {
    fn fresh() -> Self {
        Probe(Counter::new())
    }
    fn poke(&self, by: u8) {
        self.0.add(by as u64);
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        Counter::model(p)
    }
}
impl Poke for Byte {
    fn fresh() -> Self {
        Byte(Default::default())
    }
    fn poke(&self, by: u8) {
        self.0.store(by, std::sync::atomic::Ordering::SeqCst);
    }
    fn model(p: &[u8]) -> (bool, Reading) {
        let v = p.last().copied().unwrap_or(0);
        (v != 0, Reading::Gauge(v as i64))
    }
}

pub trait Handle: Send {
    fn poke(&self, by: u8);
    fn model(&self, pokes: &[u8]) -> (bool, Reading);
    /// false if this kind of handle cannot be registered again
    fn register(&self, e: MetricEntry) -> bool;
    /// The same handle, moved to another place in memory if it may be moved.
    fn moved(self: Box<Self>) -> Box<dyn Handle>;
}

impl<M: Poke> Handle for DynBoxedMetric<M> {
    fn poke(&self, by: u8) {
        (**self).poke(by)
    }
    fn model(&self, p: &[u8]) -> (bool, Reading) {
        M::model(p)
    }
    fn register(&self, _: MetricEntry) -> bool {
        false
    }
    fn moved(self: Box<Self>) -> Box<dyn Handle> {
        let pad = Box::new([0u8; 64]);
        let r = Box::new(*self);
        drop(pad);
        r
    }
}

struct Pinned<M: Metric>(Pin<Box<DynPinnedMetric<M>>>);
impl<M: Poke> Handle for Pinned<M> {
    fn poke(&self, by: u8) {
        (**self.0).poke(by)
    }
    fn model(&self, p: &[u8]) -> (bool, Reading) {
        M::model(p)
    }
    fn register(&self, e: MetricEntry) -> bool {
        self.0.as_ref().register(e);
        true
    }
    fn moved(self: Box<Self>) -> Box<dyn Handle> {
        Box::new(*self)
    }
}

pub struct Placed<M: Metric>(*mut DynPinnedMetric<M>, bool);
unsafe impl<M: Metric> Send for Placed<M> {}
unsafe impl<M: Metric> Sync for Placed<M> {}
impl<M: Metric> Placed<M> {
    /// The place must be free and stay so until this is dropped.
    pub unsafe fn new(place: usize, m: DynPinnedMetric<M>) -> Self {
        assert!(std::mem::size_of_val(&m) <= 256 && place % std::mem::align_of::<DynPinnedMetric<M>>() == 0);
        let p = place as *mut DynPinnedMetric<M>;
        p.write(m);
        Placed(p, false)
    }
    pub fn packed(from: usize, m: DynPinnedMetric<M>) -> Self {
        let at = arena().pack(from, std::mem::size_of_val(&m), std::mem::align_of_val(&m));
        let mut p = unsafe { Self::new(at, m) };
        p.1 = true;
        p
    }
    pub fn pin(&self) -> Pin<&DynPinnedMetric<M>> {
        unsafe { Pin::new_unchecked(&*self.0) }
    }
}
impl<M: Metric> Drop for Placed<M> {
    fn drop(&mut self) {
        unsafe { std::ptr::drop_in_place(self.0) }
        if self.1 {
            arena().unpack(self.0 as usize);
        }
    }
}
impl<M: Poke> Handle for Placed<M> {
    fn poke(&self, by: u8) {
        (**self.pin()).poke(by)
    }
    fn model(&self, p: &[u8]) -> (bool, Reading) {
        M::model(p)
    }
    fn register(&self, e: MetricEntry) -> bool {
        self.pin().register(e);
        true
    }
    fn moved(self: Box<Self>) -> Box<dyn Handle> {
        self
    }
}

#[allow(deprecated)]
fn make<M: Poke>(how: How, b: MetricBuilder) -> (Box<dyn Handle>, Option<MetricEntry>) {
    match how {
        How::Boxed => (Box::new(b.build(M::fresh())), None),
        How::OldBoxed => (Box::new(DynBoxedMetric::new(M::fresh(), b.into_entry())), None),
        How::OldPinned => {
            let e = b.into_entry();
            (Box::new(Pinned(Box::pin(DynPinnedMetric::new(M::fresh())))), Some(e))
        }
        How::Pinned => {
            let (m, e) = b.build_pinned(M::fresh());
            (Box::new(Pinned(Box::pin(m))), Some(e))
        }
        How::Packed(from) => {
            let (m, e) = b.build_pinned(M::fresh());
            (Box::new(Placed::packed(from as usize, m)), Some(e))
        }
        How::Placed(i) => {
            let (m, e) = b.build_pinned(M::fresh());
            let at = arena().at(i, 256);
            (Box::new(unsafe { Placed::new(at, m) }), Some(e))
        }
    }
}

fn make_kind(kind: Kind, how: How, b: MetricBuilder) -> (Box<dyn Handle>, Option<MetricEntry>) {
    match kind {
        Kind::Counter => make::<Counter>(how, b),
        Kind::Gauge => make::<Gauge>(how, b),
        Kind::LazyCounter => make::<LazyCounter>(how, b),
        Kind::LazyGauge => make::<LazyGauge>(how, b),
        Kind::Hist => make::<AtomicHistogram>(how, b),
        Kind::Rw => make::<RwLockHistogram>(how, b),
        Kind::Zst => make::<Zst>(how, b),
        Kind::Wide => make::<Wide>(how, b),
        Kind::Probe => make::<Probe>(how, b),
        Kind::Byte => make::<Byte>(how, b),
    }
}

struct Live {
    h: Box<dyn Handle>,
    /// an entry not used yet
    entry: Option<MetricEntry>,
    built: (String, Option<String>),
    listed: Option<(String, Option<String>)>,
    md: BTreeMap<String, String>,
    pokes: Vec<u8>,
    place: Option<usize>,
}

fn drop_handle(h: Box<dyn Handle>, how: DropHow) {
    match how {
        DropHow::Direct => drop(h),
        DropHow::Thread => std::thread::spawn(move || drop(h)).join().unwrap(),
        DropHow::Unwind => {
            let _ = catch_unwind(AssertUnwindSafe(move || {
                let _h = h;
                panic!("on purpose");
            }));
        }
    }
}

/// The listing now must be exactly the model's.
fn compare(live: &BTreeMap<usize, Live>, bulk: &[(u32, DynBoxedMetric<Counter>)], after: &dyn std::fmt::Debug) -> CaseResult {
    let mut want: Vec<Seen> = vec![];
    for l in live.values() {
        if let Some((name, desc)) = &l.listed {
            let (enabled, reading) = l.h.model(&l.pokes);
            want.push(Seen { name: name.clone(), description: desc.clone(), metadata: l.md.clone(), enabled, reading });
        }
    }
    for (i, _) in bulk {
        want.push(Seen { name: format!("bulk{i}"), description: None, metadata: BTreeMap::new(), enabled: true, reading: Reading::Counter(*i as u64) });
    }
    want.sort();
    let view = metrics();
    let mut got: Vec<Seen> = view.dynamic_metrics().map(seen).collect();
    got.sort();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
        return Err(format!(
            "after {after:?}: {} dynamic entries listed, {} expected; unexpected: {extra:?}; missing: {missing:?}",
            got.len(),
            want.len()
        ));
    }
    let mut all: Vec<usize> = view.iter().map(addr).collect();
    let mut parts: Vec<usize> = view.static_metrics().iter().chain(view.dynamic_metrics()).map(addr).collect();
    all.sort();
    parts.sort();
    ensure_eq!(all, parts, "addresses in iter() against static plus dynamic metrics");
    ensure_eq!(view.static_metrics().len(), statics::COUNT, "static metrics");
    Ok(())
}

fn run(ops: &[Op], obs: &mut Obs) -> CaseResult {
    PROBE_ERRORS.lock().unwrap().clear();
    let mut live: BTreeMap<usize, Live> = BTreeMap::new();
    let mut bulk: Vec<(u32, DynBoxedMetric<Counter>)> = vec![];
    let mut serial = 0u32;
    let (mut drops, mut reregs, mut reuse) = (0, 0, false);
    let mut used_places: Vec<usize> = vec![];
    for op in ops {
        match op {
            Op::Build { slot, how, kind, name, desc, md, register, thread } => {
                if let Some(l) = live.remove(slot) {
                    drop_handle(l.h, DropHow::Direct);
                }
                let mut how = *how;
                if let How::Placed(i) = how {
                    if live.values().any(|l| l.place == Some(i)) {
                        how = How::Pinned;
                    } else {
                        reuse |= used_places.contains(&i);
                        used_places.push(i);
                    }
                }
                let place = match how {
                    How::Placed(i) => Some(i),
                    _ => None,
                };
                let b = builder(name, desc, md);
                let (h, mut entry) = if *thread {
                    let kind = *kind;
                    std::thread::spawn(move || make_kind(kind, how, b)).join().map_err(|_| "building panicked")?
                } else {
                    make_kind(*kind, how, b)
                };
                let old = matches!(how, How::OldBoxed | How::OldPinned);
                let mut listed = entry.is_none().then(|| (name.clone(), desc.clone()));
                if *register {
                    if let Some(e) = entry.take() {
                        h.register(e);
                        listed = Some((name.clone(), desc.clone()));
                    }
                }
                live.insert(
                    *slot,
                    Live {
                        h,
                        entry,
                        built: (name.clone(), desc.clone()),
                        listed,
                        md: if old { BTreeMap::new() } else { last_wins(md) },
                        pokes: vec![],
                        place,
                    },
                );
            }
            Op::Register { slot, name, desc } => {
                if let Some(l) = live.get_mut(slot) {
                    if let Some(e) = l.entry.take() {
                        if l.h.register(e) {
                            l.listed = Some(l.built.clone());
                        }
                    } else if l.h.register(builder(name, desc, &[]).into_entry()) {
                        reregs += 1;
                        l.listed = Some((name.clone(), desc.clone()));
                    }
                }
            }
            Op::Poke { slot, by } => {
                if let Some(l) = live.get_mut(slot) {
                    l.h.poke(*by);
                    l.pokes.push(*by);
                }
            }
            Op::Move { slot } => {
                if let Some(mut l) = live.remove(slot) {
                    l.h = l.h.moved();
                    live.insert(*slot, l);
                }
            }
            Op::Swap { a, b } => {
                let (x, y) = (live.remove(a), live.remove(b));
                if let Some(x) = x {
                    live.insert(*b, x);
                }
                if let Some(y) = y {
                    if a != b {
                        live.insert(*a, y);
                    }
                }
            }
            Op::Drop { slot, how } => {
                if let Some(l) = live.remove(slot) {
                    drops += 1;
                    drop_handle(l.h, *how);
                }
            }
            Op::Abandon { name, what } => match what {
                0 => drop(MetricBuilder::new(name.clone()).metadata("a", "b")),
                1 => drop(MetricBuilder::new(name.clone()).into_entry()),
                2 => drop(MetricBuilder::new(name.clone()).build_pinned(Probe::fresh())),
                _ => {
                    let (m, e) = MetricBuilder::new(name.clone()).build_pinned(Counter::new());
                    drop(e);
                    let m = Box::new(m);
                    m.increment();
                }
            },
            Op::Bulk { n } => {
                for _ in 0..*n {
                    serial += 1;
                    bulk.push((serial, MetricBuilder::new(format!("bulk{serial}")).build(Counter::with_value(serial as u64))));
                }
            }
            Op::DropBulk { every } => {
                let mut i = 0u8;
                bulk.retain(|_| {
                    i = i.wrapping_add(1);
                    i % every != 0
                });
            }
        }
        compare(&live, &bulk, op)?;
        if let Some(e) = PROBE_ERRORS.lock().unwrap().first() {
            return Err(format!("after {op:?}: {e}"));
        }
    }
    obs.nontrivial(drops > 0 && live.len() + bulk.len() > 1);
    obs.label_if(reregs > 0, "registered again under another name");
    obs.label_if(reuse, "a place reused by another metric");
    obs.label_if(bulk.len() > 100, "over 100 live metrics");
    let keys: Vec<usize> = live.keys().copied().collect();
    for k in keys {
        live.remove(&k);
        compare(&live, &bulk, &"dropping the rest")?;
    }
    bulk.clear();
    compare(&live, &bulk, &"dropping everything")?;
    if let Some(e) = PROBE_ERRORS.lock().unwrap().first() {
        return Err(format!("at the end: {e}"));
    }
    ensure!(metrics().dynamic_metrics().next().is_none(), "dynamic metrics listed after everything was dropped");
    statics::check_statics(metrics().static_metrics())
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule("Histories of 1-30 operations on up to 8 dynamic metrics of 10 kinds (boxed, pinned, pinned at chosen addresses - right against each other, or exactly 4 GiB apart - made by the deprecated constructors), plus batches: build, register, register again, update, move, swap, drop (directly, on another thread, during unwinding), abandon; after every step the listing (names, descriptions, metadata, enabled state, values, as a multiset) is compared with a model and destructors check that their metric is no longer listed. Non-trivial: something was dropped while at least two others stayed.");
    ctx.note("far_places", arena().far_count());
    let slot = || 0usize..8;
    let how = || {
        prop_oneof![
            4 => Just(How::Boxed),
            2 => Just(How::Pinned),
            4 => (0usize..SLOTS).prop_map(How::Placed),
            4 => prop_oneof![3 => 0u16..8, 1 => 0u16..500].prop_map(How::Packed),
            1 => Just(How::OldBoxed),
            1 => Just(How::OldPinned),
        ]
    };
    let kind = || {
        prop_oneof![
            3 => Just(Kind::Counter),
            2 => Just(Kind::Gauge),
            1 => Just(Kind::LazyCounter),
            1 => Just(Kind::LazyGauge),
            1 => Just(Kind::Hist),
            1 => Just(Kind::Rw),
            2 => Just(Kind::Zst),
            1 => Just(Kind::Wide),
            3 => Just(Kind::Probe),
            2 => Just(Kind::Byte),
        ]
    };
    let md = || proptest::collection::vec((prop_oneof![2 => "[a-c]".boxed(), 1 => gen::text().boxed()], gen::text()), 0..4);
    let desc = || proptest::option::of(gen::text());
    let op = prop_oneof![
        8 => (slot(), how(), kind(), gen::name(), desc(), md(), prop::bool::weighted(0.8), prop::bool::weighted(0.05))
            .prop_map(|(slot, how, kind, name, desc, md, register, thread)| Op::Build { slot, how, kind, name, desc, md, register, thread }),
        3 => (slot(), gen::name(), desc()).prop_map(|(slot, name, desc)| Op::Register { slot, name, desc }),
        3 => (slot(), any::<u8>()).prop_map(|(slot, by)| Op::Poke { slot, by }),
        1 => slot().prop_map(|slot| Op::Move { slot }),
        1 => (slot(), slot()).prop_map(|(a, b)| Op::Swap { a, b }),
        4 => (slot(), prop_oneof![20 => Just(DropHow::Direct), 1 => Just(DropHow::Thread), 2 => Just(DropHow::Unwind)])
            .prop_map(|(slot, how)| Op::Drop { slot, how }),
        1 => (gen::name(), 0u8..4).prop_map(|(name, what)| Op::Abandon { name, what }),
        1 => prop_oneof![40 => 1u16..60, 1 => 200u16..3000].prop_map(|n| Op::Bulk { n }),
        1 => (1u8..4).prop_map(|every| Op::DropBulk { every }),
    ];
    ctx.check("history", ctx.cases(30_000, 20), proptest::collection::vec(op, 1..30), |ops: &Vec<Op>, obs| run(ops, obs));
}
