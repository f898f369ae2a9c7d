//! C23: MetricEntry::is over all pairs of entries and metric objects.
use std::pin::Pin;

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure_eq, Ctx};

use crate::statics::*;
use crate::util::{Wide, Zst};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Counter,
    Gauge,
    LazyCounter,
    LazyGauge,
    Hist,
    Rw,
    Zst,
    Wide,
    Shy,
    Tiny,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    kind: Kind,
    pinned: bool,
    force: bool,
    re_register: bool,
    data: bool,
}

/// Non-zero size, but never tells its concrete type.
struct Shy(u32);
impl Metric for Shy {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Counter(self.0 as u64))
    }
}

/// One byte, so that several lie close together.
struct Tiny(u8);
impl Metric for Tiny {
    fn as_any(&self) -> Option<&dyn std::any::Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Gauge(self.0 as i64))
    }
}

enum H<M: Metric> {
    Boxed(DynBoxedMetric<M>),
    Pinned(Pin<Box<DynPinnedMetric<M>>>),
}
impl<M: Metric> H<M> {
    fn new(o: &One, i: usize, m: M) -> Self {
        let mut b = MetricBuilder::new(format!("id{i}"));
        if o.data {
            b = b.metadata("k", "v").provide(7u32).provide(String::from("s"));
        }
        if o.pinned {
            let (m, e) = b.build_pinned(m);
            let m = Box::pin(m);
            m.as_ref().register(e);
            if o.re_register {
                let e = MetricBuilder::new(format!("id{i}")).description("again").into_entry();
                m.as_ref().register(e);
            }
            H::Pinned(m)
        } else {
            H::Boxed(b.build(m))
        }
    }
    fn get(&self) -> &M {
        match self {
            H::Boxed(m) => m,
            H::Pinned(m) => m,
        }
    }
}

trait Obj {
    fn obj(&self) -> &dyn Metric;
    /// Other metric objects inside this one.
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![]
    }
    fn force(&self) {}
    fn sized(&self) -> bool {
        true
    }
}
macro_rules! obj { ($($t:ty),*) => { $(impl Obj for H<$t> { fn obj(&self) -> &dyn Metric { self.get() } })* } }
obj!(Counter, Gauge, AtomicHistogram, RwLockHistogram, Shy, Tiny);
impl Obj for H<Zst> {
    fn obj(&self) -> &dyn Metric {
        self.get()
    }
    fn sized(&self) -> bool {
        false
    }
}
impl Obj for H<LazyCounter> {
    fn obj(&self) -> &dyn Metric {
        self.get()
    }
    fn force(&self) {
        Lazy::force(self.get());
    }
}
impl Obj for H<LazyGauge> {
    fn obj(&self) -> &dyn Metric {
        self.get()
    }
    fn force(&self) {
        Lazy::force(self.get());
    }
}
impl Obj for H<Wide> {
    fn obj(&self) -> &dyn Metric {
        self.get()
    }
    fn parts(&self) -> Vec<&dyn Metric> {
        vec![&self.get().first, &self.get().second]
    }
}

fn make(o: &One, i: usize) -> Box<dyn Obj> {
    match o.kind {
        Kind::Counter => Box::new(H::new(o, i, Counter::new())),
        Kind::Gauge => Box::new(H::new(o, i, Gauge::new())),
        Kind::LazyCounter => Box::new(H::new(o, i, LazyCounter::new(Counter::default))),
        Kind::LazyGauge => Box::new(H::new(o, i, LazyGauge::new(Gauge::default))),
        Kind::Hist => Box::new(H::new(o, i, AtomicHistogram::new(1, 4))),
        Kind::Rw => Box::new(H::new(o, i, RwLockHistogram::new(1, 4))),
        Kind::Zst => Box::new(H::new(o, i, Zst)),
        Kind::Wide => Box::new(H::new(o, i, Wide::new())),
        Kind::Shy => Box::new(H::new(o, i, Shy(1))),
        Kind::Tiny => Box::new(H::new(o, i, Tiny(1))),
    }
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule("0-10 dynamic metrics of 10 kinds (boxed or pinned, lazy initialised or not, with and without attached data), together with 13 static ones, unregistered ones and metrics embedded in another metric's memory (one at the same address): every entry is asked about every object. Non-trivial: at least two dynamic metrics of one type, or an embedded metric.");
    ctx.assume("zero-sized metric objects are only asked about their own entry (documented exception)");
    let kind = prop_oneof![
        Just(Kind::Counter), Just(Kind::Gauge), Just(Kind::LazyCounter), Just(Kind::LazyGauge), Just(Kind::Hist),
        Just(Kind::Rw), Just(Kind::Zst), Just(Kind::Wide), Just(Kind::Shy), Just(Kind::Tiny),
    ];
    let one = (kind, any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(kind, pinned, force, re_register, data)| One { kind, pinned, force, re_register, data });
    ctx.check(
        "all_pairs",
        ctx.cases(200_000, 8),
        (proptest::collection::vec(one, 0..10), any::<bool>()),
        |(ones, clear): &(Vec<One>, bool), obs| {
            let objs: Vec<Box<dyn Obj>> = ones.iter().enumerate().map(|(i, o)| make(o, i)).collect();
            for (o, h) in ones.iter().zip(&objs) {
                if o.force {
                    h.force();
                }
            }
            let twins = ones.iter().enumerate().any(|(i, a)| ones[..i].iter().any(|b| a.kind == b.kind));
            let wide = ones.iter().any(|o| o.kind == Kind::Wide);
            obs.nontrivial(twins || wide);
            obs.label_if(wide, "embedded metric at the same address");
            let _ = clear;
            let view = metrics();
            let loose: Vec<Box<dyn Metric>> = vec![
                Box::new(Counter::new()),
                Box::new(Gauge::new()),
                Box::new(LazyCounter::default()),
                Box::new(Shy(0)),
                Box::new(AtomicHistogram::new(1, 4)),
                Box::new(Wide::new()),
            ];
            let stat: Vec<(&'static str, &dyn Metric)> = vec![
                ("PLAIN", &PLAIN), ("named.gauge", &GAUGE), ("md", &WITH_MD), ("fmt", &FMT), ("lazy", &LAZY),
                ("lazyforced", &LAZYFORCED), ("hist", &HIST), ("rw", &RW), ("wide", &WIDE), ("many", &MANY),
            ];
            Lazy::force(&LAZYFORCED);
            for e in view.iter() {
                let is_dyn = e.name().starts_with("id");
                for (i, h) in objs.iter().enumerate() {
                    let own = e.name() == format!("id{i}");
                    if h.sized() || own {
                        ensure_eq!(e.is(h.obj()), own, "entry {} is dynamic metric {i} ({:?})", e.name(), ones[i]);
                    }
                    for p in h.parts() {
                        ensure_eq!(e.is(p), false, "entry {} is a metric inside dynamic metric {i}", e.name());
                    }
                }
                for m in &loose {
                    ensure_eq!(e.is(&**m), false, "entry {} is an unregistered metric", e.name());
                }
                for (n, m) in &stat {
                    ensure_eq!(e.is(*m), !is_dyn && e.name() == *n, "entry {} is static {n}", e.name());
                }
                for p in [&WIDE.first, &WIDE.second] {
                    ensure_eq!(e.is(p), false, "entry {} is a metric inside static WIDE", e.name());
                }
            }
            // the two statics sharing a name have one entry each
            for m in [&SAME_NAME_A, &SAME_NAME_B] {
                ensure_eq!(view.iter().filter(|e| e.is(m)).count(), 1, "entries that are a static named 'plain'");
            }
            // the initialised inner metric of a lazy one is another object
            drop(view);
            drop(objs);
            Ok(())
        },
    );
}
