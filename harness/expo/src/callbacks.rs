//! C25: user code that the library calls back may use the library and may panic.
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard};

use metriken::*;
use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, CaseResult, Ctx, Obs};

const SLOTS: usize = 6;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Counter,
    Gauge,
    Event,
    Lazy,
}

/// What a callback does besides its duty.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// look at all metrics, here or on another thread
    View(bool),
    Snapshot(bool),
    Format(usize),
    Request(usize),
    Update(usize, u8),
    /// only where no view is held
    Create(usize, Kind),
    Drop(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    /// at which callback of the operation
    at: usize,
    acts: Vec<Act>,
    panics: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Create(usize, Kind, bool),
    Drop(usize),
    Update(usize, u8),
    List(bool),
    Format(usize),
    Request(usize),
    Snapshot,
    /// keep a second view while looking
    TwoViews,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// metrics there from the beginning
    first: Vec<(Kind, bool)>,
    ops: Vec<(Op, Option<Plan>)>,
}

// ------------------------------------------------------------- the metrics

#[derive(PartialEq, Clone, Copy, Debug)]
enum At {
    Value,
    Enabled,
    Provide,
    Format,
    Filter,
    Init,
    Drop,
    Attached,
}
const NAMES: [(At, &str); 8] = [
    (At::Value, "fired in value"),
    (At::Enabled, "fired in is_enabled"),
    (At::Provide, "fired in provide"),
    (At::Format, "fired in a formatter"),
    (At::Filter, "fired in a filter"),
    (At::Init, "fired in an initialiser"),
    (At::Drop, "fired in a destructor"),
    (At::Attached, "fired in the destructor of attached data"),
];

type LazyC = Lazy<Counter, Box<dyn FnOnce() -> Counter + Send>>;

enum Shown {
    Counter(Counter),
    Gauge(Gauge),
    Event(AtomicHistogram),
    Lazy(LazyC),
}
struct Hook(Arc<Shown>);
impl Hook {
    fn inner(&self) -> &dyn Metric {
        match &*self.0 {
            Shown::Counter(m) => m,
            Shown::Gauge(m) => m,
            Shown::Event(m) => m,
            Shown::Lazy(m) => m,
        }
    }
}
impl Metric for Hook {
    fn is_enabled(&self) -> bool {
        callback(At::Enabled);
        self.inner().is_enabled()
    }
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        callback(At::Value);
        self.inner().value()
    }
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        callback(At::Provide);
        r.provide_value(4711u32);
    }
}
impl Drop for Hook {
    fn drop(&mut self) {
        callback(At::Drop);
    }
}
struct Attached;
impl Drop for Attached {
    fn drop(&mut self) {
        callback(At::Attached);
    }
}
fn formatter(e: &MetricEntry, f: Format) -> String {
    callback(At::Format);
    format!("<{}|{}>", e.name(), matches!(f, Format::Simple))
}
fn filter(e: &MetricEntry) -> bool {
    if !e.name().starts_with("cb.") {
        return false;
    }
    callback(At::Filter);
    true
}

// --------------------------------------------------------------- the world

struct Slot {
    name: String,
    loud: bool,
    shown: Arc<Shown>,
    metric: DynBoxedMetric<Hook>,
    /// None: lazy and not initialised
    value: Option<i64>,
    /// lazy, and its initialiser is running or has failed
    stuck: bool,
    /// values held since the operation began
    held: Vec<Option<i64>>,
}

struct World {
    slots: Vec<Option<Slot>>,
    created: usize,
    plan: Option<Plan>,
    seen: usize,
    fired: Option<At>,
    error: Option<String>,
}
static WORLD: Mutex<World> = Mutex::new(World { slots: Vec::new(), created: 0, plan: None, seen: 0, fired: None, error: None });
/// views the running operation holds
static HELD: AtomicUsize = AtomicUsize::new(0);

fn world() -> MutexGuard<'static, World> {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}

struct Boom;

/// Called by all user code. Never holds the world while acting.
fn callback(at: At) {
    let plan = {
        let mut w = world();
        match &w.plan {
            Some(p) if w.seen == p.at => {
                w.fired = Some(at);
                w.plan.take()
            }
            _ => {
                w.seen += 1;
                None
            }
        }
    };
    let Some(plan) = plan else { return };
    let free = HELD.load(SeqCst) == 0;
    for a in &plan.acts {
        if let Err(e) = act(a, free) {
            world().error.get_or_insert(format!("{a:?} inside {at:?}: {e}"));
        }
    }
    if plan.panics {
        resume_unwind(Box::new(Boom));
    }
}

fn elsewhere(other: bool, f: impl FnOnce() -> CaseResult + Send) -> CaseResult {
    if !other {
        return f();
    }
    std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|p| Err(format!("panicked on another thread: {}", vcommon::panic_text(&*p)))))
}

fn act(a: &Act, free: bool) -> CaseResult {
    match a {
        Act::View(other) => elsewhere(*other, look),
        Act::Snapshot(other) => elsewhere(*other, snap),
        Act::Format(i) => formats(*i),
        Act::Request(i) => requests(*i),
        Act::Update(i, by) => update(*i, *by),
        Act::Create(i, k) if free => {
            create(*i, *k, true)?;
            look()
        }
        Act::Drop(i) if free => {
            let old = world().slots[*i].take();
            drop(old);
            look()
        }
        _ => Ok(()),
    }
}

/// name -> (shown name, value now)
fn expected() -> BTreeMap<String, (Kind, Option<i64>)> {
    world()
        .slots
        .iter()
        .flatten()
        .map(|s| {
            let k = match &*s.shown {
                Shown::Counter(_) => Kind::Counter,
                Shown::Gauge(_) => Kind::Gauge,
                Shown::Event(_) => Kind::Event,
                Shown::Lazy(_) => Kind::Lazy,
            };
            (s.name.clone(), (k, s.value))
        })
        .collect()
}

fn reading(e: &MetricEntry) -> Result<(Kind, Option<i64>), String> {
    let lazy = e.as_any().and_then(|a| a.downcast_ref::<Hook>()).is_some_and(|h| matches!(&*h.0, Shown::Lazy(_)));
    Ok(match e.value() {
        None if lazy => (Kind::Lazy, None),
        Some(Value::Counter(n)) if lazy => (Kind::Lazy, Some(n as i64)),
        Some(Value::Counter(n)) => (Kind::Counter, Some(n as i64)),
        Some(Value::Gauge(n)) => (Kind::Gauge, Some(n)),
        Some(Value::Other(o)) => match o.downcast_ref::<AtomicHistogram>() {
            Some(h) => (Kind::Event, Some(h.load().map_or(0, |h| h.as_slice().iter().sum::<u64>() as i64))),
            None => return Err("an unknown value".into()),
        },
        _ => return Err(format!("{:?} has no value", e.name())),
    })
}

/// Reads all entries; the callbacks of the metrics run in between.
fn listing(back: bool) -> Result<Vec<(String, (Kind, Option<i64>))>, String> {
    let _h = Holding::new();
    let view = metrics();
    let mut out = vec![];
    let mut one = |e: &MetricEntry| -> Result<(), String> {
        if e.name().starts_with("cb.") {
            let r = reading(e)?;
            let on = e.is_enabled();
            ensure!(on || r.1.is_none() || r.0 == Kind::Lazy, "{:?} is not enabled", e.name());
            ensure_eq!(e.metadata().get("of"), Some(e.name()), "metadata of {:?}", e.name());
            out.push((e.name().to_string(), r));
        }
        Ok(())
    };
    if back {
        for e in view.iter().rev() {
            one(e)?;
        }
    } else {
        for e in view.iter() {
            one(e)?;
        }
    }
    Ok(out)
}

fn look() -> CaseResult {
    let got = listing(false)?;
    let want = expected();
    ensure_eq!(got.len(), want.len(), "entries listed ({got:?})");
    ensure_eq!(got.into_iter().collect::<BTreeMap<_, _>>(), want, "the listing");
    Ok(())
}

fn shown(name: &str, loud: bool) -> String {
    if loud {
        format!("<{name}|true>")
    } else {
        name.to_string()
    }
}

type Readings = BTreeMap<String, i64>;

fn snapshotter() -> Arc<mx::Snapshotter> {
    Arc::new(mx::SnapshotterBuilder::new().filter(filter).metadata("who".into(), "C25".into()).build())
}
static LASTING: Mutex<Option<Arc<mx::Snapshotter>>> = Mutex::new(None);
static TAKEN: AtomicUsize = AtomicUsize::new(0);

fn take() -> Result<(Readings, Readings, Readings), String> {
    // one snapshotter for the whole history, and now and then a new one
    let s = match &*LASTING.lock().unwrap_or_else(|e| e.into_inner()) {
        Some(s) if TAKEN.fetch_add(1, SeqCst) % 4 != 3 => s.clone(),
        _ => snapshotter(),
    };
    let mut s = {
        let _h = Holding::new();
        s.snapshot()
    };
    let md = s.metadata();
    ensure_eq!(md.get("who").map(|s| s.as_str()), Some("C25"), "metadata of the snapshot");
    fn put(name: String, md: std::collections::HashMap<String, String>, v: i64, m: &mut Readings) -> CaseResult {
        let plain = name.trim_matches(|c| c == '<' || c == '>').trim_end_matches("|true");
        ensure_eq!(md.get("of").map(|s| s.as_str()), Some(plain), "metadata of the reading {name:?}");
        ensure!(m.insert(name.clone(), v).is_none(), "two readings {name:?}");
        Ok(())
    }
    let mut out = (Readings::new(), Readings::new(), Readings::new());
    for c in s.counters() {
        put(c.name, c.metadata, c.value as i64, &mut out.0)?;
    }
    for g in s.gauges() {
        put(g.name, g.metadata, g.value, &mut out.1)?;
    }
    for h in s.histograms() {
        put(h.name, h.metadata, h.value.as_slice().iter().sum::<u64>() as i64, &mut out.2)?;
    }
    Ok(out)
}

/// The readings a snapshot has to hold, each with the values that will do.
fn judge(got: &(Readings, Readings, Readings), within: bool) -> CaseResult {
    let w = world();
    let mut n = 0;
    for s in w.slots.iter().flatten() {
        let name = shown(&s.name, s.loud);
        let (m, absent) = match &*s.shown {
            Shown::Counter(_) => (&got.0, None),
            Shown::Gauge(_) => (&got.1, None),
            Shown::Event(_) => (&got.2, Some(Some(0))),
            Shown::Lazy(_) => (&got.0, Some(None)),
        };
        let ok = |v: &Option<i64>| if within { s.held.contains(v) } else { s.value == *v };
        match m.get(&name) {
            Some(v) => {
                ensure!(ok(&Some(*v)), "{name:?} reads {v}, but held {:?} then", s.held);
                n += 1;
            }
            None => ensure!(absent.is_some_and(|v| ok(&v)), "no reading {name:?}"),
        }
    }
    ensure_eq!(got.0.len() + got.1.len() + got.2.len(), n, "readings in the snapshot ({got:?})");
    Ok(())
}

fn snap() -> CaseResult {
    let got = take()?;
    judge(&got, false)
}

fn formats(i: usize) -> CaseResult {
    let Some((name, loud)) = world().slots[i].as_ref().map(|s| (s.name.clone(), s.loud)) else { return Ok(()) };
    let _h = Holding::new();
    let view = metrics();
    let e = view.iter().find(|e| e.name() == name).ok_or_else(|| format!("{name:?} is not listed"))?;
    ensure_eq!(e.formatted(Format::Simple), shown(&name, loud), "simple format");
    let want = if loud { format!("<{name}|false>") } else { format!("{name}{{of=\"{name}\"}}") };
    ensure_eq!(e.formatted(Format::Prometheus), want, "Prometheus format");
    Ok(())
}

fn requests(i: usize) -> CaseResult {
    let Some(name) = world().slots[i].as_ref().map(|s| s.name.clone()) else { return Ok(()) };
    let _h = Holding::new();
    let view = metrics();
    let e = view.iter().find(|e| e.name() == name).ok_or_else(|| format!("{name:?} is not listed"))?;
    ensure_eq!(e.request_value::<u32>(), Some(4711), "what the metric provides");
    ensure!(e.request_ref::<Attached>().is_some(), "attached data not found");
    ensure!(e.request_ref::<Hook>().is_none(), "something never provided");
    Ok(())
}

fn create(i: usize, kind: Kind, loud: bool) -> CaseResult {
    if world().slots[i].is_some() {
        return Ok(());
    }
    let name = {
        let mut w = world();
        w.created += 1;
        format!("cb.{}", w.created)
    };
    let shown = Arc::new(match kind {
        Kind::Counter => Shown::Counter(Counter::new()),
        Kind::Gauge => Shown::Gauge(Gauge::new()),
        Kind::Event => Shown::Event(AtomicHistogram::new(1, 8)),
        Kind::Lazy => Shown::Lazy(Lazy::new(Box::new(|| {
            callback(At::Init);
            Counter::new()
        }))),
    });
    let mut b = MetricBuilder::new(name.clone()).metadata("of", name.clone()).provide(Attached);
    if loud {
        b = b.formatter(formatter);
    }
    let metric = b.build(Hook(shown.clone()));
    let value = (kind != Kind::Lazy).then_some(0);
    world().slots[i] = Some(Slot { name, loud, shown, metric, value, stuck: false, held: vec![None, value] });
    Ok(())
}

fn update(i: usize, by: u8) -> CaseResult {
    let Some((shown, stuck)) = world().slots[i].as_ref().map(|s| (s.shown.clone(), s.stuck)) else { return Ok(()) };
    match &*shown {
        Shown::Counter(c) => drop(c.add(by as u64)),
        Shown::Gauge(g) => drop(g.add(by as i64)),
        Shown::Event(h) => {
            for _ in 0..by % 4 {
                h.increment(by as u64).map_err(|e| format!("{e}"))?;
            }
        }
        Shown::Lazy(l) => {
            // an initialiser that is running, or has failed, cannot be run again
            if stuck {
                return Ok(());
            }
            let mark = |on| {
                if let Some(s) = world().slots[i].as_mut().filter(|s| Arc::ptr_eq(&s.shown, &shown)) {
                    s.stuck = on;
                }
            };
            mark(true);
            let r = catch_unwind(AssertUnwindSafe(|| drop(l.add(by as u64))));
            mark(r.is_err());
            if let Err(p) = r {
                resume_unwind(p);
            }
        }
    }
    let by = if let Shown::Event(_) = &*shown { by % 4 } else { by };
    if let Some(s) = world().slots[i].as_mut().filter(|s| Arc::ptr_eq(&s.shown, &shown)) {
        s.value = Some(s.value.unwrap_or(0) + by as i64);
        s.held.push(s.value);
    }
    Ok(())
}

/// While an operation that holds a view runs.
struct Holding;
impl Holding {
    fn new() -> Self {
        HELD.fetch_add(1, SeqCst);
        Holding
    }
}
impl Drop for Holding {
    fn drop(&mut self) {
        HELD.fetch_sub(1, SeqCst);
    }
}

fn within(got: Vec<(String, (Kind, Option<i64>))>) -> CaseResult {
    let w = world();
    let live: Vec<&Slot> = w.slots.iter().flatten().collect();
    ensure_eq!(got.len(), live.len(), "entries listed ({got:?})");
    for (name, (_, v)) in got {
        let s = live.iter().find(|s| s.name == name).ok_or_else(|| format!("{name:?} is listed"))?;
        ensure!(s.held.contains(&v), "{name:?} reads {v:?}, but held {:?} then", s.held);
    }
    Ok(())
}

fn perform(op: &Op) -> CaseResult {
    match op {
        Op::Create(i, k, loud) => create(*i, *k, *loud),
        Op::Drop(i) => {
            let old = world().slots[*i].take();
            drop(old);
            Ok(())
        }
        Op::Update(i, by) => update(*i, *by),
        Op::List(back) => {
            within(listing(*back)?)
        }
        Op::TwoViews => {
            let _h = Holding::new();
            let first = metrics();
            let a = first.dynamic_metrics().count();
            let got = listing(false)?;
            let second = metrics();
            ensure_eq!((first.dynamic_metrics().count(), second.dynamic_metrics().count()), (a, a), "entries of two views");
            drop(first);
            ensure_eq!(second.dynamic_metrics().count(), a, "entries of the second view");
            within(got)
        }
        Op::Format(i) => {
            formats(*i)
        }
        Op::Request(i) => {
            requests(*i)
        }
        Op::Snapshot => {
            let got = take()?;
            judge(&got, true)
        }
    }
}

fn afterwards() -> CaseResult {
    look()?;
    snap()?;
    for i in 0..SLOTS {
        formats(i)?;
        requests(i)?;
    }
    elsewhere(true, || {
        look()?;
        let n = metrics().dynamic_metrics().count();
        let m = MetricBuilder::new("other").build(Counter::new());
        ensure_eq!(metrics().dynamic_metrics().count(), n + 1, "entries after a registration on another thread");
        drop(m);
        ensure_eq!(metrics().dynamic_metrics().count(), n, "entries after a drop on another thread");
        snap()
    })
}

fn run(c: &Case, obs: &mut Obs) -> CaseResult {
    {
        let mut w = world();
        w.slots = (0..SLOTS).map(|_| None).collect();
        w.created = 0;
        w.plan = None;
        w.error = None;
    }
    HELD.store(0, SeqCst);
    TAKEN.store(0, SeqCst);
    *LASTING.lock().unwrap_or_else(|e| e.into_inner()) = Some(snapshotter());
    let res = history(c, obs);
    world().plan = None;
    let left: Vec<_> = world().slots.iter_mut().map(|s| s.take()).collect();
    for s in left {
        // a destructor that fails here has been reported
        let _ = catch_unwind(AssertUnwindSafe(move || drop(s)));
    }
    res?;
    let n = metrics().dynamic_metrics().filter(|e| e.name().starts_with("cb.")).count();
    ensure_eq!(n, 0, "entries left after all metrics were dropped");
    Ok(())
}

fn history(c: &Case, obs: &mut Obs) -> CaseResult {
    for (i, (k, loud)) in c.first.iter().enumerate() {
        create(i, *k, *loud)?;
    }
    for (k, (op, plan)) in c.ops.iter().enumerate() {
        {
            let mut w = world();
            w.plan = plan.clone();
            w.seen = 0;
            w.fired = None;
            for s in w.slots.iter_mut().flatten() {
                s.held = vec![s.value];
            }
        }
        let r = catch_unwind(AssertUnwindSafe(|| perform(op)));
        let (fired, error) = {
            let mut w = world();
            w.plan = None;
            (w.fired, w.error.take())
        };
        let at = |e: String| format!("operation {k} ({op:?}): {e}");
        if let Some(e) = error {
            return Err(at(e));
        }
        let boom = fired.is_some() && plan.as_ref().is_some_and(|p| p.panics);
        match r {
            Err(p) if boom && p.is::<Boom>() => obs.label("a panic came through"),
            Err(p) => return Err(at(format!("panicked: {}", vcommon::panic_text(&*p)))),
            // what a call with a failed callback returns is not specified
            Ok(_) if boom => {}
            Ok(r) => r.map_err(at)?,
        }
        if let Some(f) = fired {
            for (a, l) in NAMES {
                obs.label_if(a == f, l);
            }
            obs.nontrivial(true);
            afterwards().map_err(|e| at(format!("afterwards: {e}")))?;
            ensure!(world().error.is_none(), "an error without a plan");
        }
    }
    afterwards().map_err(|e| format!("at the end: {e}"))
}

pub fn c25(ctx: &mut Ctx) {
    ctx.rule("histories of 1-13 operations (create, drop, update, list, format, request, snapshot, two views) over up to six dynamic metrics whose value, enabled state, provider, formatter, initialiser, destructor, attached data and snapshot filter are user code; in a generated one of these callbacks the user code looks at the listing, takes views and snapshots (on this or another thread), formats, requests, updates, and where no view is held creates and drops other metrics, and then may panic. After each such operation the listing, values, formats, requests and a snapshot are compared with the model on this and another thread, and a metric is registered and dropped there. Non-trivial: a planned callback took place");
    let slot = || 0..SLOTS;
    let kind = || prop_oneof![Just(Kind::Counter), Just(Kind::Gauge), Just(Kind::Event), Just(Kind::Lazy)];
    let act = move || {
        prop_oneof![
            any::<bool>().prop_map(Act::View),
            any::<bool>().prop_map(Act::Snapshot),
            slot().prop_map(Act::Format),
            slot().prop_map(Act::Request),
            (slot(), any::<u8>()).prop_map(|(i, n)| Act::Update(i, n)),
            (slot(), kind()).prop_map(|(i, k)| Act::Create(i, k)),
            slot().prop_map(Act::Drop),
        ]
    };
    let op = move || {
        prop_oneof![
            2 => (slot(), kind(), any::<bool>()).prop_map(|(i, k, l)| Op::Create(i, k, l)),
            2 => slot().prop_map(Op::Drop),
            2 => (slot(), any::<u8>()).prop_map(|(i, n)| Op::Update(i, n)),
            2 => any::<bool>().prop_map(Op::List),
            1 => slot().prop_map(Op::Format),
            1 => slot().prop_map(Op::Request),
            2 => Just(Op::Snapshot),
            1 => Just(Op::TwoViews),
        ]
    };
    let plan = move || (prop_oneof![2 => 0usize..2, 3 => 0usize..16], proptest::collection::vec(act(), 0..4), any::<bool>()).prop_map(|(at, acts, panics)| Plan { at, acts, panics });
    ctx.check(
        "callbacks",
        ctx.cases(80_000, 10),
        (
            proptest::collection::vec((kind(), any::<bool>()), 0..=SLOTS),
            proptest::collection::vec((op(), proptest::option::weighted(0.6, plan())), 1..14),
        )
            .prop_map(|(first, ops)| Case { first, ops }),
        run,
    );
}
