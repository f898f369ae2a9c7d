//! C14: snapshots of metrics at rest.
use std::any::Any;
use std::pin::Pin;
use std::sync::Mutex;
use std::time::SystemTime;

use metriken::*;
use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

use crate::model::{norm, Labels};

// ---------------------------------------------------------- static metrics

fn loud(e: &MetricEntry, f: Format) -> String {
    match f {
        Format::Simple => format!("LOUD {} {}", e.name(), e.metadata().get("a").unwrap_or("-")),
        _ => "not simple".into(),
    }
}

#[metric]
static ST_COUNTER: Counter = Counter::new();
#[metric(name = "st.gauge", description = "a gauge", metadata = { a = "1", "b c" = "2" })]
static ST_GAUGE: Gauge = Gauge::new();
#[metric(name = "st.lazy")]
static ST_LAZY: LazyCounter = LazyCounter::new(|| Counter::with_value(77));
#[metric(name = "st.hist", description = "h", metadata = { grouping_power = "wrong" })]
static ST_HIST: AtomicHistogram = AtomicHistogram::new(2, 8);
#[metric(name = "st.rw")]
static ST_RW: RwLockHistogram = RwLockHistogram::new(1, 4);
#[metric(name = "st.loud", formatter = loud, metadata = { a = "x" })]
static ST_LOUD: Counter = Counter::with_value(5);
/// has a value though it says it is not set up and shows no concrete object
#[metric(name = "st.shy", description = "")]
static ST_SHY: Shy = Shy;

struct Shy;
impl Metric for Shy {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Gauge(-9))
    }
}

// --------------------------------------------------------- dynamic metrics

/// What a metric of unusual type reports.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Odd {
    Counter(u64),
    Gauge(i64),
    Nothing,
    Text,
    /// one of its own histograms, recorded or never used
    Event,
    Bulk,
    Unused,
}

/// Its state, whether it hides (1: says it is not set up, 2: shows no object),
/// and what it can show.
struct OddMetric(Mutex<Odd>, std::sync::atomic::AtomicU8, String, AtomicHistogram, RwLockHistogram, AtomicHistogram);
impl OddMetric {
    fn new(o: Odd) -> Self {
        let m = OddMetric(Mutex::new(o), Default::default(), "text".into(), AtomicHistogram::new(0, 4), RwLockHistogram::new(0, 3), AtomicHistogram::new(0, 4));
        m.3.increment(0).expect("in range");
        m.4.update_from(&ODD_BULK).expect("right length");
        m
    }
    fn hides(&self) -> u8 {
        self.1.load(std::sync::atomic::Ordering::SeqCst)
    }
}
const ODD_BULK: [u64; 4] = [0, 7, u64::MAX, 0];
impl Metric for OddMetric {
    fn is_enabled(&self) -> bool {
        self.hides() == 0
    }
    fn as_any(&self) -> Option<&dyn Any> {
        (self.hides() != 2).then_some(self as &dyn Any)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(match *self.0.lock().unwrap() {
            Odd::Counter(v) => Value::Counter(v),
            Odd::Gauge(v) => Value::Gauge(v),
            Odd::Nothing => return None,
            Odd::Text => Value::Other(&self.2),
            Odd::Event => Value::Other(&self.3),
            Odd::Bulk => Value::Other(&self.4),
            Odd::Unused => Value::Other(&self.5),
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Counter(u64),
    Gauge(i64),
    LazyCounter(u64),
    LazyGauge(i64),
    Event((u8, u8)),
    LazyEvent((u8, u8)),
    Bulk((u8, u8)),
    Odd(Odd),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Def {
    kind: Kind,
    name: String,
    description: Option<String>,
    md: Labels,
    formatter: u8,
    boxed: bool,
}

type LazyFn<T> = Box<dyn Fn() -> T + Send + Sync>;
enum M {
    C(Counter),
    G(Gauge),
    LC(Lazy<Counter, LazyFn<Counter>>),
    LG(Lazy<Gauge, LazyFn<Gauge>>),
    E(AtomicHistogram),
    LE(Lazy<AtomicHistogram, LazyFn<AtomicHistogram>>),
    B(RwLockHistogram),
    O(OddMetric),
}
impl M {
    fn inner(&self) -> &dyn Metric {
        match self {
            M::C(m) => m,
            M::G(m) => m,
            M::LC(m) => m,
            M::LG(m) => m,
            M::E(m) => m,
            M::LE(m) => m,
            M::B(m) => m,
            M::O(m) => m,
        }
    }
}
impl Metric for M {
    fn is_enabled(&self) -> bool {
        self.inner().is_enabled()
    }
    fn as_any(&self) -> Option<&dyn Any> {
        self.inner().as_any()
    }
    fn value(&self) -> Option<Value<'_>> {
        self.inner().value()
    }
}

enum Held {
    Boxed(DynBoxedMetric<M>),
    Pinned(Pin<Box<DynPinnedMetric<M>>>),
}
impl Held {
    fn get(&self) -> &M {
        match self {
            Held::Boxed(b) => b,
            Held::Pinned(p) => p,
        }
    }
}

/// What the metric should read.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    None,
    Counter(u64),
    Gauge(i64),
    Hist((u8, u8), Vec<u64>),
}

struct Live {
    def: Def,
    held: Held,
    val: Val,
}

fn f_short(e: &MetricEntry, f: Format) -> String {
    match f {
        Format::Simple => format!("{}#{}", e.name(), e.metadata().len()),
        _ => "not simple".into(),
    }
}
fn f_const(_: &MetricEntry, _: Format) -> String {
    "same for all".into()
}

impl Def {
    fn simple_name(&self) -> String {
        match self.formatter % 4 {
            0 | 1 => self.name.clone(),
            2 => format!("{}#{}", self.name, self.md.len()),
            _ => "same for all".into(),
        }
    }
    fn create(&self) -> Live {
        let mut b = MetricBuilder::new(self.name.clone());
        if let Some(d) = &self.description {
            b = b.description(d.clone());
        }
        for (k, v) in &self.md {
            b = b.metadata(k.clone(), v.clone());
        }
        match self.formatter % 4 {
            2 => b = b.formatter(f_short),
            3 => b = b.formatter(f_const),
            _ => {}
        }
        let (m, val) = match self.kind.clone() {
            Kind::Counter(v) => (M::C(Counter::with_value(v)), Val::Counter(v)),
            Kind::Gauge(v) => (M::G(Gauge::with_value(v)), Val::Gauge(v)),
            Kind::LazyCounter(v) => (M::LC(Lazy::new(Box::new(move || Counter::with_value(v)))), Val::None),
            Kind::LazyGauge(v) => (M::LG(Lazy::new(Box::new(move || Gauge::with_value(v)))), Val::None),
            Kind::Event(p) => (M::E(AtomicHistogram::new(p.0, p.1)), Val::None),
            Kind::LazyEvent(p) => (M::LE(Lazy::new(Box::new(move || AtomicHistogram::new(p.0, p.1)))), Val::None),
            Kind::Bulk(p) => (M::B(RwLockHistogram::new(p.0, p.1)), Val::None),
            Kind::Odd(o) => (M::O(OddMetric::new(o)), odd_val(o)),
        };
        let held = if self.boxed {
            Held::Boxed(b.build(m))
        } else {
            let (p, e) = b.build_pinned(m);
            let p = Box::pin(p);
            p.as_ref().register(e);
            Held::Pinned(p)
        };
        Live { def: self.clone(), held, val }
    }
}

fn odd_val(o: Odd) -> Val {
    match o {
        Odd::Counter(v) => Val::Counter(v),
        Odd::Gauge(v) => Val::Gauge(v),
        Odd::Event => {
            let mut b = vec![0; gen::total_buckets(0, 4)];
            b[0] = 1;
            Val::Hist((0, 4), b)
        }
        Odd::Bulk => Val::Hist((0, 3), ODD_BULK.to_vec()),
        _ => Val::None,
    }
}

impl Live {
    fn update(&mut self, x: u64) {
        let hist = |val: &mut Val, p: (u8, u8)| {
            if *val == Val::None {
                *val = Val::Hist(p, vec![0; gen::total_buckets(p.0, p.1)]);
            }
        };
        match (self.held.get(), &self.def.kind) {
            (M::C(m), _) => {
                m.set(x);
                self.val = Val::Counter(x);
            }
            (M::G(m), _) => {
                m.set(x as i64);
                self.val = Val::Gauge(x as i64);
            }
            (M::LC(m), Kind::LazyCounter(start)) => {
                // the first touch only creates it
                if self.val == Val::None {
                    Lazy::force(m);
                    self.val = Val::Counter(*start);
                } else {
                    m.set(x);
                    self.val = Val::Counter(x);
                }
            }
            (M::LG(m), Kind::LazyGauge(start)) => {
                if self.val == Val::None {
                    Lazy::force(m);
                    self.val = Val::Gauge(*start);
                } else {
                    m.set(x as i64);
                    self.val = Val::Gauge(x as i64);
                }
            }
            (M::E(m), Kind::Event(p)) => {
                let v = fold(x, p.1);
                m.increment(v).expect("in range");
                hist(&mut self.val, *p);
                let Val::Hist(_, b) = &mut self.val else { return };
                b[gen::bucket_of(p.0, p.1, v).unwrap()] += 1;
            }
            (M::LE(m), Kind::LazyEvent(p)) => {
                if x % 3 == 0 && self.val == Val::None {
                    // created but empty
                    Lazy::force(m);
                } else {
                    let v = fold(x, p.1);
                    m.increment(v).expect("in range");
                    hist(&mut self.val, *p);
                    let Val::Hist(_, b) = &mut self.val else { return };
                    b[gen::bucket_of(p.0, p.1, v).unwrap()] += 1;
                }
            }
            (M::B(m), Kind::Bulk(p)) => {
                let n = gen::total_buckets(p.0, p.1);
                let data: Vec<u64> = (0..n as u64).map(|i| if i % 5 == x % 5 { x.rotate_left(i as u32) } else { 0 }).collect();
                m.update_from(&data).expect("right length");
                self.val = Val::Hist(*p, data);
            }
            (M::O(m), _) => {
                let o = match x % 7 {
                    0 => Odd::Counter(x),
                    1 => Odd::Gauge(x as i64),
                    2 => Odd::Nothing,
                    3 => Odd::Text,
                    4 => Odd::Event,
                    5 => Odd::Bulk,
                    _ => Odd::Unused,
                };
                *m.0.lock().unwrap() = o;
                m.1.store((x / 7 % 3) as u8, std::sync::atomic::Ordering::SeqCst);
                self.val = odd_val(o);
            }
            _ => unreachable!(),
        }
    }

    /// Reading the metric itself agrees with the model (nothing was changed).
    fn untouched(&self) -> CaseResult {
        let m = self.held.get();
        match m {
            M::LC(l) => ensure_eq!(Lazy::get(l).is_some(), self.val != Val::None, "is the lazy counter {:?} created", self.def.name),
            M::LG(l) => ensure_eq!(Lazy::get(l).is_some(), self.val != Val::None, "is the lazy gauge {:?} created", self.def.name),
            _ => {}
        }
        let now = match m.value() {
            Some(Value::Counter(v)) => Val::Counter(v),
            Some(Value::Gauge(v)) => Val::Gauge(v),
            Some(Value::Other(o)) => {
                let h = o.downcast_ref::<AtomicHistogram>().and_then(|h| h.load()).or_else(|| o.downcast_ref::<RwLockHistogram>().and_then(|h| h.load()));
                h.map_or(Val::None, |h| Val::Hist((h.config().grouping_power(), h.config().max_value_power()), h.as_slice().to_vec()))
            }
            _ => Val::None,
        };
        ensure_eq!(now, self.val, "value of {:?} after the snapshot", self.def.name);
        Ok(())
    }
}

fn fold(x: u64, m: u8) -> u64 {
    if m < 64 {
        x & ((1u64 << m) - 1)
    } else {
        x
    }
}

// ----------------------------------------------------------------- filters

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Filter {
    Default,
    All,
    None,
    Names(Vec<String>),
    HasKey(String),
    Described,
    KindIs(u8),
    Hash(u64),
}

static FILTER: Mutex<Filter> = Mutex::new(Filter::Default);

fn kind_of(e: &MetricEntry) -> u8 {
    match e.value() {
        Some(Value::Counter(_)) => 0,
        Some(Value::Gauge(_)) => 1,
        Some(_) => 2,
        None => 3,
    }
}

fn name_hash(s: &str, seed: u64) -> bool {
    s.bytes().fold(seed, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 7 & 1 == 0
}

fn accept(e: &MetricEntry) -> bool {
    match &*FILTER.lock().unwrap() {
        Filter::Default | Filter::All => true,
        Filter::None => false,
        Filter::Names(n) => n.iter().any(|n| n == e.name()),
        Filter::HasKey(k) => e.metadata().contains_key(k),
        Filter::Described => e.description().is_some(),
        Filter::KindIs(k) => kind_of(e) == *k,
        Filter::Hash(s) => name_hash(e.name(), *s),
    }
}

/// The same decision from what the harness knows.
fn accepts(f: &Filter, name: &str, desc: bool, md: &Labels, val: &Val, other: bool) -> bool {
    let kind = match val {
        Val::Counter(_) => 0,
        Val::Gauge(_) => 1,
        Val::Hist(..) => 2,
        Val::None => {
            if other {
                2
            } else {
                3
            }
        }
    };
    match f {
        Filter::Default | Filter::All => true,
        Filter::None => false,
        Filter::Names(n) => n.iter().any(|n| n == name),
        Filter::HasKey(k) => md.contains_key(k),
        Filter::Described => desc,
        Filter::KindIs(k) => kind == *k,
        Filter::Hash(s) => name_hash(name, *s),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(Def),
    Update(u16, u64),
    Static(u8, u64),
    /// register a pinned metric again, under this name and description
    Again(u16, String, Option<String>),
    Drop(u16),
    Snap,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
    filter: Filter,
    md: Vec<(String, String)>,
}

type Out = (Vec<(String, u64, Labels)>, Vec<(String, i64, Labels)>, Vec<(String, (u8, u8), Vec<u64>, Labels)>);

fn place(out: &mut Out, name: String, desc: Option<&str>, md: &Labels, val: &Val) {
    let mut md = md.clone();
    if let Val::Hist(p, _) = val {
        md.insert("grouping_power".into(), p.0.to_string());
        md.insert("max_value_power".into(), p.1.to_string());
    }
    if let Some(d) = desc {
        md.insert("description".into(), d.into());
    }
    match val {
        Val::None => {}
        Val::Counter(v) => out.0.push((name, *v, md)),
        Val::Gauge(v) => out.1.push((name, *v, md)),
        Val::Hist(p, b) => out.2.push((name, *p, b.clone(), md)),
    }
}

struct Statics {
    counter: u64,
    gauge: i64,
    lazy: Option<u64>,
    hist: Vec<u64>,
    rw: Option<Vec<u64>>,
}

/// The static metrics keep their state from case to case; this is the model of it.
static STATICS: Mutex<Statics> = Mutex::new(Statics { counter: 0, gauge: 0, lazy: None, hist: vec![], rw: None });

impl Statics {
    fn update(&mut self, which: u8, x: u64) {
        match which % 5 {
            0 => {
                ST_COUNTER.set(x);
                self.counter = x;
            }
            1 => {
                ST_GAUGE.set(x as i64);
                self.gauge = x as i64;
            }
            2 => {
                let v = *self.lazy.get_or_insert(77);
                ST_LAZY.add(x);
                self.lazy = Some(v.wrapping_add(x));
            }
            3 => {
                let v = x & 255;
                ST_HIST.increment(v).expect("in range");
                self.hist.resize(gen::total_buckets(2, 8), 0);
                self.hist[gen::bucket_of(2, 8, v).unwrap()] += 1;
            }
            _ => {
                let data: Vec<u64> = (0..gen::total_buckets(1, 4) as u64).map(|i| x >> i).collect();
                ST_RW.update_from(&data).expect("right length");
                self.rw = Some(data);
            }
        }
    }
    /// name, simple name, description, metadata, value, is a histogram
    fn list(&self) -> Vec<(&'static str, String, Option<&'static str>, Labels, Val, bool)> {
        let md = |v: &[(&str, &str)]| -> Labels { v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
        vec![
            ("ST_COUNTER", "ST_COUNTER".into(), None, md(&[]), Val::Counter(self.counter), false),
            ("st.gauge", "st.gauge".into(), Some("a gauge"), md(&[("a", "1"), ("b c", "2")]), Val::Gauge(self.gauge), false),
            ("st.lazy", "st.lazy".into(), None, md(&[]), self.lazy.map_or(Val::None, Val::Counter), false),
            (
                "st.hist",
                "st.hist".into(),
                Some("h"),
                md(&[("grouping_power", "wrong")]),
                if self.hist.is_empty() { Val::None } else { Val::Hist((2, 8), self.hist.clone()) },
                true,
            ),
            ("st.rw", "st.rw".into(), None, md(&[]), self.rw.clone().map_or(Val::None, |b| Val::Hist((1, 4), b)), true),
            ("st.shy", "st.shy".into(), Some(""), md(&[]), Val::Gauge(-9), false),
            ("st.loud", "LOUD st.loud x".into(), None, md(&[("a", "x")]), Val::Counter(5), false),
        ]
    }
}

fn history(c: &Case, obs: &mut Obs) -> CaseResult {
    let mut statics = STATICS.lock().unwrap_or_else(|e| e.into_inner());
    *FILTER.lock().unwrap() = c.filter.clone();
    let mut b = mx::SnapshotterBuilder::new();
    for (i, (k, v)) in c.md.iter().enumerate() {
        // the filter may be set anywhere in the chain
        if i == 1 && c.filter != Filter::Default {
            b = b.filter(accept);
        }
        b = b.metadata(k.clone(), v.clone());
    }
    if c.filter != Filter::Default {
        b = b.filter(accept);
    }
    let snapshotter = b.build();
    let own: Labels = c.md.iter().cloned().collect();
    let mut live: Vec<Live> = vec![];
    let mut snaps = 0;
    let mut most = 0;
    let (mut refused, mut again) = (false, false);
    for op in c.ops.iter().chain([&Op::Snap]) {
        match op {
            Op::Add(d) => live.push(d.create()),
            Op::Update(i, x) => {
                if !live.is_empty() {
                    let i = *i as usize % live.len();
                    live[i].update(*x);
                }
            }
            Op::Static(w, x) => statics.update(*w, *x),
            Op::Again(i, name, description) => {
                if !live.is_empty() {
                    let i = *i as usize % live.len();
                    let l = &mut live[i];
                    if let Held::Pinned(p) = &l.held {
                        let mut b = MetricBuilder::new(name.clone());
                        if let Some(d) = description {
                            b = b.description(d.clone());
                        }
                        p.as_ref().register(b.into_entry());
                        l.def.name = name.clone();
                        l.def.description = description.clone();
                        again = true;
                    }
                }
            }
            Op::Drop(i) => {
                if !live.is_empty() {
                    let i = *i as usize % live.len();
                    live.remove(i);
                }
            }
            Op::Snap => {
                let mut want: Out = Default::default();
                for (name, simple, desc, md, val, other) in statics.list() {
                    if accepts(&c.filter, name, desc.is_some(), &md, &val, other) {
                        place(&mut want, simple, desc, &md, &val);
                    }
                }
                for l in &live {
                    let other = matches!(l.held.get(), M::E(_) | M::B(_)) || matches!(l.held.get(), M::LE(h) if Lazy::get(h).is_some()) || matches!(l.held.get(), M::O(o) if matches!(*o.0.lock().unwrap(), Odd::Text | Odd::Unused));
                    if accepts(&c.filter, &l.def.name, l.def.description.is_some(), &l.def.md, &l.val, other) {
                        place(&mut want, l.def.simple_name(), l.def.description.as_deref(), &l.def.md, &l.val);
                    } else {
                        refused = true;
                    }
                }
                let mut within = false;
                // (a clock that is stepped during the call is the machine's doing)
                for _ in 0..3 {
                    let before = SystemTime::now();
                    let s = snapshotter.snapshot();
                    let after = SystemTime::now();
                    within = before <= s.systemtime() && s.systemtime() <= after;
                    let mut got = norm(&s);
                    ensure_eq!(got.md, own, "metadata of the snapshot");
                    got.counters.sort();
                    got.gauges.sort();
                    got.histograms.sort();
                    want.0.sort();
                    want.1.sort();
                    want.2.sort();
                    ensure_eq!(got.counters, want.0, "counters");
                    ensure_eq!(got.gauges, want.1, "gauges");
                    ensure_eq!(got.histograms, want.2, "histograms");
                    for l in &live {
                        l.untouched()?;
                    }
                    ensure_eq!(ST_COUNTER.value(), statics.counter, "static counter after the snapshot");
                    ensure_eq!(ST_GAUGE.value(), statics.gauge, "static gauge after the snapshot");
                    ensure_eq!(Lazy::get(&ST_LAZY).map(|c| c.value()), statics.lazy, "static lazy counter after the snapshot");
                    ensure_eq!(ST_HIST.load().map(|h| h.as_slice().to_vec()), Some(statics.hist.clone()).filter(|h| !h.is_empty()), "static histogram after the snapshot");
                    ensure_eq!(ST_RW.load().map(|h| h.as_slice().to_vec()), statics.rw, "static bulk histogram after the snapshot");
                    if within {
                        break;
                    }
                }
                ensure!(within, "the snapshot's time is not within the call, three times over");
                snaps += 1;
                most = most.max(want.0.len() + want.1.len() + want.2.len());
            }
        }
    }
    obs.nontrivial(snaps >= 2 && most >= 2);
    obs.label_if(refused, "the filter refused something");
    obs.label_if(again, "a metric registered again under another name");
    obs.label_if(most >= 5, "five readings or more");
    obs.extra_evals(snaps - 1);
    Ok(())
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        3 => gen::u64_any().prop_map(Kind::Counter),
        3 => gen::i64_any().prop_map(Kind::Gauge),
        1 => gen::u64_any().prop_map(Kind::LazyCounter),
        1 => gen::i64_any().prop_map(Kind::LazyGauge),
        2 => gen::powers_small().prop_map(Kind::Event),
        1 => gen::powers_small().prop_map(Kind::LazyEvent),
        2 => gen::powers_small().prop_map(Kind::Bulk),
        2 => prop_oneof![
            gen::u64_any().prop_map(Odd::Counter),
            gen::i64_any().prop_map(Odd::Gauge),
            Just(Odd::Nothing),
            Just(Odd::Text),
            Just(Odd::Event),
            Just(Odd::Bulk),
            Just(Odd::Unused)
        ]
        .prop_map(Kind::Odd),
    ]
    .boxed()
}

fn def() -> BoxedStrategy<Def> {
    let key = prop_oneof![3 => "[a-c]".boxed(), 1 => prop::sample::select(vec!["description", "grouping_power", "max_value_power", "metric", "name"]).prop_map(String::from).boxed(), 1 => gen::text().boxed()];
    let md = prop_oneof![
        400 => proptest::collection::btree_map(key, gen::text(), 0..4),
        2 => proptest::collection::btree_map("[a-z]{1,3}", "[a-z]{0,3}", 4..100),
        1 => proptest::collection::btree_map("[a-z]{1,4}", "[a-z]{0,3}", 100..400),
    ];
    (kind(), gen::name(), proptest::option::of(gen::text()), md, 0u8..6, any::<bool>())
        .prop_map(|(kind, name, description, md, formatter, boxed)| Def { kind, name, description, md, formatter: if formatter > 3 { 0 } else { formatter }, boxed })
        .boxed()
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule("histories of registering (also again, under another name), updating and dropping metrics of every kind (counters, gauges, lazy ones, both histograms, and types of their own that report counters, gauges, histograms, nothing or something else, also while saying that they are not set up or showing no concrete object), next to seven static metrics, with snapshots in between by one snapshotter with a generated filter and metadata; each snapshot compared as a multiset of readings with a model, and every metric re-read afterwards. evaluations counts snapshots; non-trivial: at least two snapshots, one with at least two readings");
    ctx.assume("the system clock is not stepped back during three successive snapshots");
    let op = || {
        prop_oneof![
            4 => def().prop_map(Op::Add),
            4 => (any::<u16>(), gen::u64_any()).prop_map(|(i, x)| Op::Update(i, x)),
            1 => (any::<u8>(), gen::u64_any()).prop_map(|(i, x)| Op::Static(i, x)),
            1 => (any::<u16>(), gen::name(), proptest::option::of(gen::text())).prop_map(|(i, n, d)| Op::Again(i, n, d)),
            1 => any::<u16>().prop_map(Op::Drop),
            2 => Just(Op::Snap),
        ]
    };
    let filter = || {
        prop_oneof![
            3 => Just(Filter::Default),
            1 => Just(Filter::All),
            1 => Just(Filter::None),
            2 => proptest::collection::vec(prop_oneof![3 => "[a-c]".boxed(), 1 => Just("st.gauge".to_string()).boxed()], 1..3).prop_map(Filter::Names),
            1 => "[a-c]".prop_map(Filter::HasKey),
            1 => Just(Filter::Described),
            2 => (0u8..4).prop_map(Filter::KindIs),
            2 => any::<u64>().prop_map(Filter::Hash),
        ]
    };
    let md = || {
        let pair = || (prop_oneof!["[a-c]".boxed(), gen::text().boxed()], gen::text());
        prop_oneof![60 => proptest::collection::vec(pair(), 0..4), 1 => proptest::collection::vec(pair(), 4..300)]
    };
    ctx.check(
        "history",
        ctx.cases(30_000, 10),
        (proptest::collection::vec(op(), 1..24), filter(), md()).prop_map(|(ops, filter, md)| Case { ops, filter, md }),
        history,
    );
    // histograms of very many buckets
    let big = || {
        let kind = prop_oneof![2 => gen::powers_large().prop_map(Kind::Event), 1 => gen::powers_large().prop_map(Kind::LazyEvent), 2 => gen::powers_large().prop_map(Kind::Bulk)];
        (kind, def()).prop_map(|(kind, d)| Op::Add(Def { kind, ..d }))
    };
    ctx.check(
        "large",
        ctx.cases(40, 20),
        (big(), proptest::collection::vec(prop_oneof![1 => big(), 3 => (any::<u16>(), gen::u64_any()).prop_map(|(i, x)| Op::Update(i, x)), 1 => Just(Op::Snap)], 1..8), filter(), md())
            .prop_map(|(first, mut ops, filter, md)| {
                ops.insert(0, first);
                Case { ops, filter, md }
            }),
        history,
    );
    // many metrics at once
    ctx.check(
        "many",
        ctx.cases(60, 20),
        (prop_oneof![6 => proptest::collection::vec(def(), 60..300), 1 => proptest::collection::vec(def(), 1000..3000)], filter(), md(), 0usize..100).prop_map(|(defs, filter, md, drops)| {
            let mut ops: Vec<Op> = defs.into_iter().map(Op::Add).collect();
            ops.push(Op::Snap);
            ops.extend((0..drops).map(|i| Op::Drop((i * 7919) as u16)));
            Case { ops, filter, md }
        }),
        history,
    );
}
