//! C26: what is handed to the library is destroyed exactly once, and no
//! history leaves memory behind.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Barrier};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicUsize, Ordering::*};

use metriken::*;
use metriken_core::Request;
use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::conv::Scratch;
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

// ----------------------------------------------------- bytes that are in use

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);

fn count(n: i64) {
    if ON.load(Relaxed) {
        LIVE.fetch_add(n, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

// -------------------------------------------------------------------- tokens

const MOST: usize = 1 << 16;
/// How often each token was destroyed.
static GONE: [AtomicU32; MOST] = [const { AtomicU32::new(0) }; MOST];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static SPOILT: AtomicBool = AtomicBool::new(false);

fn gone(id: usize) -> u32 {
    GONE[id].load(SeqCst)
}

/// Owns nothing, so that destroying it twice is noticed and not fatal.
struct Token<const N: usize> {
    id: usize,
    mark: usize,
}
impl<const N: usize> Token<N> {
    fn new() -> Self {
        let id = NEXT.fetch_add(1, SeqCst).min(MOST - 1);
        Token { id, mark: !id ^ N }
    }
    fn sound(&self) -> bool {
        self.id < MOST && self.mark == !self.id ^ N
    }
}
impl<const N: usize> Drop for Token<N> {
    fn drop(&mut self) {
        if self.sound() {
            GONE[self.id].fetch_add(1, SeqCst);
        } else {
            SPOILT.store(true, SeqCst);
        }
    }
}

// ------------------------------------------------------------------- metrics

/// A metric that owns something and offers more when asked.
struct Tok {
    counter: Counter,
    own: Token<0>,
    text: Option<Box<str>>,
}
impl Tok {
    fn new(text: bool) -> Self {
        Tok { counter: Counter::new(), own: Token::new(), text: text.then(|| "text of its own".into()) }
    }
}
impl Metric for Tok {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.counter.value()))
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        r.provide_value(Token::<7>::new()).provide_value(Token::<7>::new());
        r.provide_value_with(Token::<8>::new).provide_value_with(Token::<8>::new);
        r.provide_ref::<Token<0>>(&self.own);
        if let Some(t) = &self.text {
            r.provide_ref::<str>(t);
        }
    }
}

type LazyTok = Lazy<Tok, Box<dyn FnOnce() -> Tok + Send>>;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Tok,
    /// the initialiser may panic
    Lazy(bool),
    Event(u8),
    Bulk(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum How {
    Boxed,
    /// registered that often
    Pinned(u8),
    Abandoned,
    IntoEntry,
    Old,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Build { kind: Kind, how: How, name: String, description: Option<String>, md: Vec<(String, String)>, attach: Vec<u8>, format: bool },
    Update(u8, u64),
    /// first use by this many threads
    Force(u8, u8),
    Look,
    Request(u8),
    Snapshot(u8),
    /// `cut`: so many bytes missing at the end; `path`: by path
    Convert { snaps: u8, sparse: bool, zstd: bool, cut: u8, path: bool },
    Drop { slot: u8, thread: bool, unwinding: bool },
}

enum Held {
    Tok(DynBoxedMetric<Tok>),
    TokP(Pin<Box<DynPinnedMetric<Tok>>>),
    Lazy(DynBoxedMetric<LazyTok>),
    LazyP(Pin<Box<DynPinnedMetric<LazyTok>>>),
    Event(DynBoxedMetric<AtomicHistogram>),
    EventP(Pin<Box<DynPinnedMetric<AtomicHistogram>>>),
    Bulk(DynBoxedMetric<RwLockHistogram>),
    BulkP(Pin<Box<DynPinnedMetric<RwLockHistogram>>>),
}

struct Slot {
    held: Held,
    /// must not be destroyed before the slot
    keep: Vec<usize>,
    /// must be destroyed with it at the latest
    all: Vec<usize>,
    /// the data attached, the last of each type
    attached: [Option<usize>; 3],
    at: usize,
}
impl Slot {
    fn tok(&self) -> Option<&Tok> {
        match &self.held {
            Held::Tok(m) => Some(m),
            Held::TokP(m) => Some(m),
            Held::Lazy(m) => Lazy::get(m),
            Held::LazyP(m) => Lazy::get(m),
            _ => None,
        }
    }
    fn lazy(&self) -> Option<&LazyTok> {
        match &self.held {
            Held::Lazy(m) => Some(m),
            Held::LazyP(m) => Some(m),
            _ => None,
        }
    }
    fn addr(&self) -> usize {
        match &self.held {
            Held::Tok(m) => &**m as *const Tok as usize,
            Held::TokP(m) => &***m as *const Tok as usize,
            Held::Lazy(m) => &**m as *const LazyTok as usize,
            Held::LazyP(m) => &***m as *const LazyTok as usize,
            Held::Event(m) => &**m as *const AtomicHistogram as usize,
            Held::EventP(m) => &***m as *const AtomicHistogram as usize,
            Held::Bulk(m) => &**m as *const RwLockHistogram as usize,
            Held::BulkP(m) => &***m as *const RwLockHistogram as usize,
        }
    }
}

fn formatter(e: &MetricEntry, _: Format) -> String {
    format!("<{}>", e.name())
}

fn powers(p: u8) -> (u8, u8) {
    (p % 4, p % 4 + 1 + p / 4 % 8)
}

struct Boom;

#[allow(deprecated)]
fn build(op: &Op, obs: &mut Obs) -> Result<Option<Slot>, String> {
    let Op::Build { kind, how, name, description, md, attach, format } = op else { unreachable!() };
    let mut b = MetricBuilder::new(name.clone());
    if let Some(d) = description {
        b = b.description(d.clone());
    }
    for (k, v) in md {
        b = b.metadata(k.clone(), v.clone());
    }
    let mut attached = [None; 3];
    let mut all = vec![];
    for a in attach {
        let id;
        match a % 3 {
            0 => {
                let t = Token::<1>::new();
                id = t.id;
                b = b.provide(t);
            }
            1 => {
                let t = Token::<2>::new();
                id = t.id;
                b = b.provide(t);
            }
            _ => {
                let t = Token::<3>::new();
                id = t.id;
                b = b.provide(t);
            }
        }
        obs.label_if(attached[(a % 3) as usize].is_some(), "attached data replaced");
        attached[(a % 3) as usize] = Some(id);
        all.push(id);
        if *format {
            b = b.formatter(formatter);
        }
    }
    for id in attached.iter().flatten() {
        ensure_eq!(gone(*id), 0, "times a datum was destroyed that is still attached to a builder");
    }
    match how {
        How::Abandoned => {
            drop(b);
            for id in all {
                ensure_eq!(gone(id), 1, "times a datum attached to an abandoned builder was destroyed");
            }
            obs.label_if(!attach.is_empty(), "builder abandoned");
            return Ok(None);
        }
        How::IntoEntry => {
            let e = b.into_entry();
            ensure_eq!(e.name(), name, "name of an entry");
            drop(e);
            for id in all {
                ensure_eq!(gone(id), 1, "times a datum attached to an abandoned entry was destroyed");
            }
            return Ok(None);
        }
        How::Old => {
            // made from a bare entry: what was attached goes
            let e = b.into_entry();
            let t = Tok::new(false);
            let keep = vec![t.own.id];
            all.push(t.own.id);
            let m = DynBoxedMetric::new(t, e);
            let mut s = Slot { held: Held::Tok(m), keep, all, attached: [None; 3], at: 0 };
            s.at = s.addr();
            return Ok(Some(s));
        }
        _ => {}
    }
    let mut keep: Vec<usize> = attached.iter().flatten().copied().collect();
    macro_rules! make {
        ($m:expr, $boxed:ident, $pinned:ident) => {
            match how {
                How::Pinned(n) => {
                    let (m, e) = b.build_pinned($m);
                    let m = Box::pin(m);
                    if *n > 0 {
                        m.as_ref().register(e);
                        for i in 1..*n {
                            m.as_ref().register(MetricBuilder::new(format!("{name}.{i}")).into_entry());
                        }
                    }
                    Held::$pinned(m)
                }
                _ => Held::$boxed(b.build($m)),
            }
        };
    }
    let held = match kind {
        Kind::Tok => {
            let t = Tok::new(*format);
            keep.push(t.own.id);
            all.push(t.own.id);
            make!(t, Tok, TokP)
        }
        Kind::Lazy(panics) => {
            let t = Token::<4>::new();
            all.push(t.id);
            let panics = *panics;
            let f: Box<dyn FnOnce() -> Tok + Send> = Box::new(move || {
                let t = t;
                if panics {
                    resume_unwind(Box::new(Boom));
                }
                assert!(t.sound());
                Tok::new(true)
            });
            make!(LazyTok::new(f), Lazy, LazyP)
        }
        Kind::Event(p) => make!(AtomicHistogram::new(powers(*p).0, powers(*p).1), Event, EventP),
        Kind::Bulk(p) => make!(RwLockHistogram::new(powers(*p).0, powers(*p).1), Bulk, BulkP),
    };
    let mut s = Slot { held, keep, all, attached, at: 0 };
    s.at = s.addr();
    Ok(Some(s))
}

fn intact(s: &Slot) -> CaseResult {
    ensure_eq!(s.addr(), s.at, "address of a metric");
    for id in &s.keep {
        ensure_eq!(gone(*id), 0, "times something was destroyed whose metric lives");
    }
    if let Some(t) = s.tok() {
        ensure!(t.own.sound(), "what a metric owns has changed");
    }
    Ok(())
}

/// A file that is destroyed when it is given up.
struct Handle(Cursor<Vec<u8>>, #[allow(dead_code)] Token<5>);
impl Read for Handle {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl Seek for Handle {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
impl Write for Handle {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn files() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn snapshots(n: u8) -> Vec<mx::Snapshot> {
    let s = mx::SnapshotterBuilder::new().metadata("a".into(), "b".into()).build();
    (0..n).map(|_| s.snapshot()).collect()
}

fn run(ops: &[Op], obs: &mut Obs) -> CaseResult {
    reset();
    let mut slots: Vec<Slot> = vec![];
    let r = (|| -> CaseResult {
        for op in ops {
            let before = NEXT.load(SeqCst);
            match op {
                Op::Build { .. } => {
                    if let Some(s) = build(op, obs)? {
                        slots.push(s);
                    }
                }
                Op::Drop { slot, thread, unwinding } => {
                    if slots.is_empty() {
                        continue;
                    }
                    let i = *slot as usize % slots.len();
                    let Slot { held, all, .. } = slots.swap_remove(i);
                    if *thread {
                        std::thread::spawn(move || drop(held)).join().map_err(|_| "dropping a metric on another thread panicked")?;
                    } else if *unwinding {
                        let _ = catch_unwind(AssertUnwindSafe(move || {
                            let _held = held;
                            resume_unwind(Box::new(Boom));
                        }));
                    } else {
                        drop(held);
                    }
                    for id in all {
                        ensure_eq!(gone(id), 1, "times something was destroyed after its metric was dropped");
                    }
                    obs.nontrivial(true);
                }
                Op::Update(slot, v) => {
                    if slots.is_empty() {
                        continue;
                    }
                    let n = slots.len();
                    match &slots[*slot as usize % n].held {
                        Held::Tok(m) => drop(m.counter.add(*v)),
                        Held::TokP(m) => drop(m.counter.add(*v)),
                        Held::Event(m) => drop(m.increment(*v)),
                        Held::EventP(m) => drop(m.increment(*v)),
                        Held::Bulk(m) => drop(m.update_from(&vec![*v; m.config().total_buckets()])),
                        Held::BulkP(m) => drop(m.update_from(&vec![*v; m.config().total_buckets() + (*v as usize & 1)])),
                        _ => {}
                    }
                }
                Op::Force(slot, threads) => {
                    if slots.is_empty() {
                        continue;
                    }
                    let lazy: Vec<usize> = (0..slots.len()).filter(|i| !matches!(slots[*i].held, Held::Tok(_) | Held::TokP(_))).collect();
                    if lazy.is_empty() {
                        continue;
                    }
                    let s = &mut slots[lazy[*slot as usize % lazy.len()]];
                    macro_rules! race {
                        ($use:expr) => {{
                            let start = Barrier::new(*threads as usize + 1);
                            std::thread::scope(|sc| {
                                for _ in 0..=*threads {
                                    sc.spawn(|| {
                                        start.wait();
                                        drop($use);
                                    });
                                }
                            });
                        }};
                    }
                    match &s.held {
                        Held::Event(m) => race!(m.increment(0)),
                        Held::EventP(m) => race!(m.increment(0)),
                        Held::Bulk(m) => race!(m.update_from(&vec![1; m.config().total_buckets()])),
                        Held::BulkP(m) => race!(m.update_from(&vec![1; m.config().total_buckets()])),
                        _ => {}
                    }
                    if let Some(l) = s.lazy() {
                        if *threads == 0 {
                            let _ = catch_unwind(AssertUnwindSafe(|| l.counter.increment()));
                        } else {
                            std::thread::scope(|sc| {
                                let t: Vec<_> = (0..*threads).map(|_| sc.spawn(|| l.counter.increment())).collect();
                                for t in t {
                                    let _ = t.join();
                                }
                            });
                            obs.label_if(true, "first use by several threads");
                        }
                        if let Some(t) = Lazy::get(l) {
                            let id = t.own.id;
                            if !s.keep.contains(&id) {
                                s.keep.push(id);
                                s.all.push(id);
                            }
                        }
                    }
                }
                Op::Look => {
                    let view = metrics();
                    for e in view.dynamic_metrics() {
                        let text = e.formatted(Format::Prometheus) + &e.formatted(Format::Simple);
                        ensure!(text.contains(e.name()), "formatted as {text:?}");
                        let _ = (e.value(), e.metadata().iter().count(), e.is_enabled());
                        if let Some(t) = e.as_any().and_then(|a| a.downcast_ref::<Tok>()) {
                            ensure!(t.own.sound(), "what a metric owns has changed");
                        }
                    }
                }
                Op::Request(which) => {
                    let view = metrics();
                    for e in view.dynamic_metrics() {
                        let Some(s) = slots.iter().find(|s| s.at == e.metric() as *const dyn Metric as *const () as usize) else { return Err("an entry that is nobody's".into()) };
                        let direct = matches!(s.held, Held::Tok(_) | Held::TokP(_));
                        match which % 6 {
                            0 => {
                                let t = e.request_value::<Token<7>>();
                                ensure_eq!(t.as_ref().map(|t| (t.sound(), gone(t.id))), direct.then_some((true, 0)), "offered datum (sound, times destroyed)");
                            }
                            1 => {
                                let t = e.request_value::<Token<8>>();
                                ensure_eq!(t.as_ref().map(|t| (t.sound(), gone(t.id))), direct.then_some((true, 0)), "offered datum (sound, times destroyed)");
                            }
                            2 => ensure_eq!(e.request_ref::<Token<0>>().map(|t| t.sound()), direct.then_some(true), "own datum"),
                            3 => ensure_eq!(e.request_ref::<Token<1>>().filter(|t| t.sound()).map(|t| t.id), s.attached[0], "attached datum"),
                            4 => ensure_eq!(e.request_ref::<Token<2>>().filter(|t| t.sound()).map(|t| t.id), s.attached[1], "attached datum"),
                            _ => ensure_eq!(e.request_ref::<Token<3>>().filter(|t| t.sound()).map(|t| t.id), s.attached[2], "attached datum"),
                        }
                    }
                    drop(view);
                }
                Op::Snapshot(way) => {
                    let mut s = snapshots(1).pop().unwrap();
                    match way % 4 {
                        0 => {
                            let b = mx::Snapshot::to_json(&s).map_err(|e| format!("to_json: {e}"))?;
                            let _: mx::Snapshot = serde_json::from_slice(&b).map_err(|e| format!("from JSON: {e}"))?;
                        }
                        1 => {
                            let b = mx::Snapshot::to_msgpack(&s).map_err(|e| format!("to_msgpack: {e}"))?;
                            let _: mx::Snapshot = rmp_serde::from_slice(&b).map_err(|e| format!("from MessagePack: {e}"))?;
                        }
                        2 => drop((s.counters(), s.gauges(), s.histograms(), s.metadata())),
                        _ => drop(s.clone()),
                    }
                }
                Op::Convert { snaps, sparse, zstd, cut, path } => {
                    let mut stream = vec![];
                    for s in snapshots(*snaps) {
                        stream.extend(mx::Snapshot::to_msgpack(&s).map_err(|e| format!("to_msgpack: {e}"))?);
                    }
                    let whole = stream.len();
                    stream.truncate(whole - (*cut as usize).min(whole.saturating_sub(1)));
                    let mut o = mx::ParquetOptions::new().max_batch_size(2);
                    if *sparse {
                        o = o.histogram_type(mx::ParquetHistogramType::Sparse);
                    }
                    if *zstd {
                        o = o.compression(mx::ParquetCompression::zstd(1).map_err(|e| format!("zstd level 1: {e}"))?);
                    }
                    let c = mx::MsgpackToParquet::with_options(o).metadata("k".into(), "v".into());
                    let r = if *path {
                        // no scratch space is not the library's fault
                        let Ok(d) = Scratch::new() else { continue };
                        if std::fs::write(d.0.join("in"), &stream).is_err() {
                            continue;
                        }
                        let open = files();
                        let r = c.convert_file_path(d.0.join("in"), d.0.join("out"));
                        // other threads of the harness open files for a moment
                        let mut tries = 0;
                        while files() > open && tries < 100 {
                            std::thread::sleep(std::time::Duration::from_millis(20));
                            tries += 1;
                        }
                        let now = files();
                        ensure!(now <= open, "{open} open files before a conversion by path, {now} after it");
                        r
                    } else {
                        c.convert_file_handle(Handle(Cursor::new(stream), Token::new()), Handle(Cursor::new(vec![]), Token::new()))
                    };
                    match r {
                        Ok(n) => ensure!(*cut > 0 || n as i128 == *snaps as i128, "{n} of {snaps} snapshots converted"),
                        Err(e) => ensure!(*cut > 0, "conversion: {e}"),
                    }
                    obs.label_if(*cut > 0, "damaged stream");
                    obs.label_if(true, "converted");
                }
            }
            // what was offered in between is gone; nothing else is
            if !matches!(op, Op::Build { .. } | Op::Force(..)) {
                for id in before..NEXT.load(SeqCst) {
                    ensure_eq!(gone(id), 1, "times a datum offered to a request was destroyed");
                }
            }
            for s in &slots {
                intact(s)?;
            }
        }
        Ok(())
    })();
    // also after a failure, so that it leaves nothing registered
    drop(slots);
    r?;
    everything_gone()
}

/// So many repetitions must leave memory behind, and none give any back, before it counts as a leak.
const ROUNDS: usize = 8;

fn case(ops: &Vec<Op>, obs: &mut Obs) -> CaseResult {
    run(ops, obs)?;
    // what depends on a race does not happen every time
    let patience = if ops.iter().any(|o| matches!(o, Op::Force(_, 2..))) { 3 } else { 1 };
    repeat(patience, || run(ops, &mut Obs::default()))
}

/// `f` has run once, which may have set up what is then kept.
fn repeat(patience: usize, f: impl Fn() -> CaseResult) -> CaseResult {
    let mut grown = vec![];
    let mut quiet = 0;
    while grown.len() < ROUNDS {
        let before = LIVE.load(SeqCst);
        f()?;
        let after = LIVE.load(SeqCst);
        if after > before {
            grown.push(after - before);
            quiet = 0;
        } else {
            quiet += 1;
            if after < before || quiet >= patience {
                return Ok(());
            }
        }
    }
    Err(format!("repeating the history leaves memory behind again and again: {grown:?} bytes"))
}

/// Many metrics, each used first by all threads at once.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct First {
    kinds: Vec<Kind>,
    threads: u8,
}
enum Fresh {
    Event(AtomicHistogram),
    Bulk(RwLockHistogram),
    Lazy(LazyTok),
}
fn first_use(c: &First) -> CaseResult {
    reset();
    let n = c.threads as usize;
    let all: Vec<Fresh> = c
        .kinds
        .iter()
        .map(|k| match k {
            Kind::Event(p) => Fresh::Event(AtomicHistogram::new(powers(*p).0, powers(*p).1)),
            Kind::Bulk(p) => Fresh::Bulk(RwLockHistogram::new(powers(*p).0, powers(*p).1)),
            _ => {
                let t = Token::<4>::new();
                Fresh::Lazy(LazyTok::new(Box::new(move || {
                    assert!(t.sound());
                    Tok::new(true)
                })))
            }
        })
        .collect();
    let shared = Arc::new((all, AtomicUsize::new(0)));
    let threads: Vec<_> = (0..n)
        .map(|_| {
            let shared = shared.clone();
            std::thread::spawn(move || {
                for (i, m) in shared.0.iter().enumerate() {
                    // all start together; give way when there are fewer cores
                    shared.1.fetch_add(1, SeqCst);
                    let mut spins = 0;
                    while shared.1.load(SeqCst) < (i + 1) * n {
                        spins += 1;
                        if spins % 1000 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    match m {
                        Fresh::Event(m) => drop(m.increment(0)),
                        Fresh::Bulk(m) => drop(m.update_from(&vec![1; m.config().total_buckets()])),
                        Fresh::Lazy(m) => drop(m.counter.increment()),
                    }
                }
            })
        })
        .collect();
    for t in threads {
        t.join().map_err(|_| "a first use panicked")?;
    }
    drop(shared);
    everything_gone()
}

fn reset() {
    NEXT.store(0, SeqCst);
    for g in GONE.iter().take(2048) {
        g.store(0, SeqCst);
    }
    SPOILT.store(false, SeqCst);
}

fn everything_gone() -> CaseResult {
    ensure!(NEXT.load(SeqCst) < 2048, "the harness made too many tokens");
    for id in 0..NEXT.load(SeqCst) {
        ensure_eq!(gone(id), 1, "times something was destroyed after everything was dropped");
    }
    ensure!(!SPOILT.load(SeqCst), "something was spoilt before it was destroyed");
    Ok(())
}

pub fn c26(ctx: &mut Ctx) {
    ON.store(true, SeqCst);
    ctx.rule("Histories of 1-25 operations: metrics of their own type, lazy ones (whose initialiser may panic, first used by 1-4 threads at once) and both histograms built in every way (boxed, pinned and registered 0-3 times, by the deprecated constructor, builder or entry abandoned) with generated strings and 0-6 attached data, updated, listed, formatted, asked, snapshotted, encoded and decoded, converted to Parquet (by handle or path, whole or damaged), and dropped (directly, on another thread, while unwinding). Every object handed over is a token that records its destruction: none is destroyed while its metric lives, each exactly once by the end. In another sub-check 100-300 histograms and lazy metrics are each used first by 2-5 threads at once. A counting allocator measures the bytes in use while each history is repeated: eight repetitions that leave memory behind, and none that gives any back, are a leak. Non-trivial: a metric was dropped in mid-history.");
    ctx.assume("only memory from Rust's global allocator is counted");
    let build = || {
        let kind = prop_oneof![3 => Just(Kind::Tok), 2 => prop::bool::weighted(0.3).prop_map(Kind::Lazy), 1 => any::<u8>().prop_map(Kind::Event), 1 => any::<u8>().prop_map(Kind::Bulk)];
        let how = prop_oneof![4 => Just(How::Boxed), 3 => (0u8..4).prop_map(How::Pinned), 1 => Just(How::Abandoned), 1 => Just(How::IntoEntry), 1 => Just(How::Old)];
        (kind, how, gen::name(), proptest::option::of(gen::text()), proptest::collection::vec((gen::text(), gen::text()), 0..4), proptest::collection::vec(any::<u8>(), 0..6), any::<bool>())
            .prop_map(|(kind, how, name, description, md, attach, format)| Op::Build { kind, how, name, description, md, attach, format })
    };
    let op = || {
        prop_oneof![
            6 => build(),
            2 => (any::<u8>(), gen::u64_any()).prop_map(|(s, v)| Op::Update(s, v)),
            2 => (any::<u8>(), prop_oneof![3 => Just(0u8), 1 => 1u8..5]).prop_map(|(s, t)| Op::Force(s, t)),
            1 => Just(Op::Look),
            2 => any::<u8>().prop_map(Op::Request),
            1 => any::<u8>().prop_map(Op::Snapshot),
            4 => (any::<u8>(), prop::bool::weighted(0.1), prop::bool::weighted(0.2)).prop_map(|(slot, thread, unwinding)| Op::Drop { slot, thread, unwinding }),
        ]
    };
    ctx.check("history", ctx.cases(25_000, 12), proptest::collection::vec(op(), 1..25), case);
    let kind = prop_oneof![2 => any::<u8>().prop_map(Kind::Event), 2 => any::<u8>().prop_map(Kind::Bulk), 1 => Just(Kind::Lazy(false))];
    ctx.check("first-use", ctx.cases(400, 10), (proptest::collection::vec(kind, 100..300), 2u8..6).prop_map(|(kinds, threads)| First { kinds, threads }), |c: &First, obs: &mut Obs| {
        obs.nontrivial(true);
        first_use(c)?;
        repeat(3, || first_use(c))
    });
    let convert = || (0u8..5, any::<bool>(), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop::bool::weighted(0.2)).prop_map(|(snaps, sparse, zstd, cut, path)| Op::Convert { snaps, sparse, zstd, cut, path });
    ctx.check("export", ctx.cases(2_000, 15), proptest::collection::vec(prop_oneof![2 => op(), 1 => convert(), 1 => any::<u8>().prop_map(Op::Snapshot)], 1..12), case);
}
