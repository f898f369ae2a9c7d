//! C09: lazily initialised metrics.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, CaseResult, Ctx, Obs};

use crate::util::{reading, Reading};

type Init = Box<dyn FnOnce() -> Gauge + Send>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Get,
    GetMut,
    Enabled,
    Any,
    Value,
    List,
    Format,
    Metadata,
    Request,
    Force,
    Deref,
    DerefMut,
    Update(i64),
}

impl Op {
    fn uses(&self) -> bool {
        matches!(self, Op::Force | Op::Deref | Op::DerefMut | Op::Update(_))
    }
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => Just(Op::Get),
        2 => Just(Op::GetMut),
        2 => Just(Op::Enabled),
        2 => Just(Op::Any),
        2 => Just(Op::Value),
        2 => Just(Op::List),
        2 => Just(Op::Format),
        1 => Just(Op::Metadata),
        1 => Just(Op::Request),
        1 => Just(Op::Force),
        1 => Just(Op::Deref),
        1 => Just(Op::DerefMut),
        1 => (-5i64..5).prop_map(Op::Update),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    ops: Vec<Op>,
    init: i64,
    /// the initialiser panics
    fails: bool,
    /// seen through a registered dynamic metric
    registered: bool,
}

enum Place {
    Own(Box<Lazy<Gauge, Init>>),
    Reg(DynBoxedMetric<Lazy<Gauge, Init>>),
}
impl Place {
    fn get(&self) -> &Lazy<Gauge, Init> {
        match self {
            Place::Own(l) => l,
            Place::Reg(l) => l,
        }
    }
}

fn sequence(c: &Seq, obs: &mut Obs) -> CaseResult {
    let runs = Arc::new(AtomicUsize::new(0));
    // what is seen of the metric while its initialiser runs
    let during: Arc<Mutex<Vec<String>>> = Arc::default();
    let (r2, init, fails, d2, listed) = (runs.clone(), c.init, c.fails, during.clone(), c.registered);
    let f: Init = Box::new(move || {
        r2.fetch_add(1, Ordering::SeqCst);
        if listed {
            let mut seen = d2.lock().unwrap();
            match metrics().dynamic_metrics().find(|e| e.name() == "lz") {
                None => seen.push("not listed".into()),
                Some(e) => {
                    if e.is_enabled() {
                        seen.push("enabled".into());
                    }
                    if e.as_any().is_some() {
                        seen.push("with a concrete object".into());
                    }
                    if e.value().is_some() {
                        seen.push("with a value".into());
                    }
                }
            }
        }
        if fails {
            panic!("initialiser fails");
        }
        Gauge::with_value(init)
    });
    let lazy = Lazy::new(f);
    let mut place = if c.registered { Place::Reg(MetricBuilder::new("lz").metadata("a", "b").build(lazy)) } else { Place::Own(Box::new(lazy)) };
    let mut used = false;
    let mut model: Option<i64> = None;
    let mut observed_before = false;
    for op in &c.ops {
        match op {
            Op::Get => ensure_eq!(Lazy::get(place.get()).map(|g| g.value()), model, "Lazy::get"),
            Op::GetMut => {
                if let Place::Own(l) = &mut place {
                    ensure_eq!(Lazy::get_mut(l).map(|g| g.value()), model, "Lazy::get_mut")
                }
            }
            Op::Enabled => ensure_eq!(place.get().is_enabled(), model.is_some(), "is_enabled"),
            Op::Any => {
                let got = place.get().as_any().and_then(|a| a.downcast_ref::<Gauge>()).map(|g| g.value());
                ensure_eq!(got, model, "as_any as the inner metric");
                ensure_eq!(place.get().as_any().is_some(), model.is_some(), "as_any");
            }
            Op::Value => {
                let want = model.map(Reading::Gauge).unwrap_or(Reading::Nothing);
                ensure_eq!(reading(place.get()), want, "Metric::value");
            }
            Op::List | Op::Format | Op::Metadata | Op::Request => {
                let view = metrics();
                for e in view.iter() {
                    match op {
                        Op::Format => {
                            e.formatted(Format::Simple);
                            e.formatted(Format::Prometheus);
                        }
                        Op::Metadata => {
                            e.metadata().len();
                        }
                        Op::Request => {
                            e.request_ref::<str>();
                            e.request_value::<u8>();
                            let _ = format!("{e:?}");
                        }
                        _ => {
                            let want = model.map(Reading::Gauge).unwrap_or(Reading::Nothing);
                            if e.name() == "lz" {
                                ensure_eq!(crate::util::seen(e).reading, want, "value through the entry");
                                ensure_eq!(e.is_enabled(), model.is_some(), "is_enabled through the entry");
                                ensure_eq!(e.as_any().is_some(), model.is_some(), "as_any through the entry");
                            } else {
                                let _ = crate::util::seen(e);
                            }
                        }
                    }
                }
            }
            Op::Force | Op::Deref | Op::DerefMut | Op::Update(_) => {
                let got = catch_unwind(AssertUnwindSafe(|| match op {
                    Op::Force => Lazy::force(place.get()).value(),
                    Op::Deref => {
                        let g: &Gauge = place.get();
                        g.value()
                    }
                    Op::DerefMut => match &mut place {
                        Place::Own(l) => {
                            let g: &mut Gauge = &mut *l;
                            g.value()
                        }
                        Place::Reg(l) => (***l).value(),
                    },
                    Op::Update(v) => {
                        let g: &Gauge = place.get();
                        g.add(*v)
                    }
                    _ => unreachable!(),
                }));
                used = true;
                if c.fails {
                    ensure!(got.is_err(), "using a lazy metric whose initialiser panics returned a value");
                } else {
                    let before = model.unwrap_or(c.init);
                    ensure_eq!(got.ok(), Some(before), "value seen by a use ({op:?})");
                    model = Some(if let Op::Update(v) = op { before.wrapping_add(*v) } else { before });
                }
            }
        }
        if !op.uses() && !used {
            observed_before = true;
        }
        ensure_eq!(*during.lock().unwrap(), Vec::<String>::new(), "state of the metric while its initialiser runs");
        let n = runs.load(Ordering::SeqCst);
        ensure_eq!(n, used as usize, "runs of the initialiser after {op:?} (used: {used})");
        ensure_eq!(place.get().is_enabled(), model.is_some(), "enabled after {op:?}");
        ensure_eq!(Lazy::get(place.get()).map(|g| g.value()), model, "inner value after {op:?}");
    }
    ensure!(Lazy::get(&crate::statics::LAZY).is_none(), "observation initialised a static lazy metric");
    obs.nontrivial(used && observed_before);
    obs.label_if(c.fails && used, "initialiser panicked");
    obs.label_if(!used, "never used");
    Ok(())
}

/// Statically declared lazy metrics, each used up by one case.
mod pool {
    use super::*;
    pub static RUNS: AtomicUsize = AtomicUsize::new(0);
    pub fn init() -> Gauge {
        RUNS.fetch_add(1, Ordering::SeqCst);
        Gauge::with_value(77)
    }
    macro_rules! pool {
        ($($id:ident $name:literal),*) => {
            $(#[metric(name = $name)] static $id: LazyGauge = LazyGauge::new(init);)*
            pub static ALL: [(&str, &LazyGauge); super::POOL] = [$(($name, &$id)),*];
        };
    }
    pool!(P0 "pool.0", P1 "pool.1", P2 "pool.2", P3 "pool.3", P4 "pool.4", P5 "pool.5", P6 "pool.6", P7 "pool.7");
}
pub const POOL: usize = 8;
pub fn pool_names() -> Vec<&'static str> {
    pool::ALL.iter().map(|p| p.0).collect()
}
/// Whether the pool's metric of this name is initialised.
pub fn pool_state(name: &str) -> Option<bool> {
    pool::ALL.iter().find(|p| p.0 == name).map(|p| Lazy::get(p.1).is_some())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pooled {
    before: Vec<Op>,
    using: Op,
    after: Vec<Op>,
}

/// A fresh static lazy metric, through its static and through its entry.
fn pooled(c: &Pooled, obs: &mut Obs) -> CaseResult {
    let Some((name, lazy)) = pool::ALL.iter().find(|p| Lazy::get(p.1).is_none()) else {
        return Ok(());
    };
    let runs = pool::RUNS.load(Ordering::SeqCst);
    let mut model = None;
    for op in c.before.iter().chain([&c.using]).chain(&c.after) {
        if op.uses() && model.is_none() {
            model = Some(77i64);
        }
        match op {
            Op::Get => drop(Lazy::get(lazy)),
            Op::Enabled => drop(lazy.is_enabled()),
            Op::Any => drop(lazy.as_any()),
            Op::Value => drop(lazy.value()),
            Op::Force => drop(Lazy::force(lazy)),
            Op::Deref | Op::DerefMut | Op::GetMut => {
                if op.uses() {
                    lazy.value();
                    let g: &Gauge = lazy;
                    ensure_eq!(Some(g.value()), model, "value seen by a use");
                }
            }
            Op::Update(v) => {
                let was = lazy.add(*v);
                ensure_eq!(Some(was), model, "value seen by an update");
                model = Some(was.wrapping_add(*v));
            }
            Op::List | Op::Format | Op::Metadata | Op::Request => {
                for e in metrics().iter() {
                    let _ = (e.is_enabled(), e.as_any().is_some(), reading(e.metric()), e.formatted(Format::Prometheus), format!("{e:?}"));
                }
            }
        }
        let view = metrics();
        crate::statics::check_statics(view.static_metrics())?;
        let e = view.static_metrics().iter().find(|e| e.name() == *name).ok_or("the static lazy metric is not listed")?;
        let want = model.map(Reading::Gauge).unwrap_or(Reading::Nothing);
        ensure_eq!(crate::util::seen(e).reading, want, "value through the static's entry after {op:?}");
        ensure_eq!(e.is_enabled(), model.is_some(), "is_enabled through the static's entry after {op:?}");
        let got = e.as_any().and_then(|a| a.downcast_ref::<Gauge>()).map(|g| g.value());
        ensure_eq!(got, model, "as_any through the static's entry after {op:?}");
        ensure_eq!(pool::RUNS.load(Ordering::SeqCst) - runs, model.is_some() as usize, "runs of the initialiser after {op:?}");
    }
    obs.nontrivial(!c.before.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    users: usize,
    observers: usize,
    slow: u32,
    fails: bool,
    rounds: u32,
}

fn race(c: &Race, obs: &mut Obs) -> CaseResult {
    for _ in 0..c.rounds {
        let runs = Arc::new(AtomicUsize::new(0));
        let (r2, slow, fails) = (runs.clone(), c.slow, c.fails);
        let f: Init = Box::new(move || {
            r2.fetch_add(1, Ordering::SeqCst);
            for _ in 0..slow {
                std::thread::yield_now();
            }
            if fails {
                panic!("initialiser fails");
            }
            Gauge::with_value(100)
        });
        let lazy = MetricBuilder::new("race").build(Lazy::new(f));
        let go = Barrier::new(c.users + c.observers);
        let done = AtomicBool::new(false);
        let res: Vec<Result<(Option<usize>, Option<i64>), String>> = std::thread::scope(|s| {
            let mut hs = vec![];
            for _ in 0..c.users {
                let (lazy, go) = (&lazy, &go);
                hs.push(s.spawn(move || {
                    go.wait();
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let l: &Lazy<Gauge, Init> = lazy;
                        let g: &Gauge = Lazy::force(l);
                        (g as *const Gauge as usize, g.increment())
                    }));
                    Ok(match r {
                        Ok((a, v)) => (Some(a), Some(v)),
                        Err(_) => (None, None),
                    })
                }));
            }
            let mut ws = vec![];
            for _ in 0..c.observers {
                let (lazy, go, done, users) = (&lazy, &go, &done, c.users as i64);
                ws.push(s.spawn(move || {
                    go.wait();
                    let mut on = false;
                    loop {
                        let last = done.load(Ordering::SeqCst);
                        let l: &Lazy<Gauge, Init> = lazy;
                        // enabled, once seen, comes with a value
                        if l.is_enabled() && (reading(l) == Reading::Nothing || l.as_any().is_none()) {
                            return Err("enabled but without a value".into());
                        }
                        if l.as_any().is_some() && !l.is_enabled() {
                            return Err("has a concrete object but is not enabled".into());
                        }
                        // value before enabled: enabled can only switch on
                        let v = reading(l);
                        let any = l.as_any().is_some();
                        let en = l.is_enabled();
                        match v {
                            Reading::Nothing => {
                                if on {
                                    return Err("an initialised lazy metric lost its value".to_string());
                                }
                            }
                            Reading::Gauge(v) => {
                                if !(100..=100 + users).contains(&v) {
                                    return Err(format!("observed value {v} was never held"));
                                }
                                if !en || !any {
                                    return Err("has a value but is not enabled".into());
                                }
                                on = true;
                            }
                            o => return Err(format!("observed {o:?}")),
                        }
                        if last {
                            return Ok(on);
                        }
                    }
                }));
            }
            let out = hs.into_iter().map(|h| h.join().unwrap_or(Err("user thread died".into()))).collect();
            done.store(true, Ordering::SeqCst);
            for w in ws {
                match w.join() {
                    Ok(Ok(on)) if on == !c.fails => {}
                    Ok(Ok(on)) => return vec![Err(format!("after all uses returned an observer saw initialised = {on}"))],
                    Ok(Err(e)) => return vec![Err(e)],
                    Err(p) => return vec![Err(format!("observer panicked: {}", vcommon::panic_text(&*p)))],
                }
            }
            out
        });
        let n = runs.load(Ordering::SeqCst);
        ensure_eq!(n, 1, "runs of the initialiser with {} racing users", c.users);
        let mut addrs = vec![];
        let mut prev = vec![];
        for r in res {
            let (a, v) = r?;
            ensure_eq!(a.is_none(), c.fails, "a use failed");
            addrs.extend(a);
            prev.extend(v);
        }
        addrs.dedup();
        prev.sort();
        if !c.fails {
            ensure_eq!(addrs.len(), 1, "distinct objects seen by the users");
            let want: Vec<i64> = (100..100 + c.users as i64).collect();
            ensure_eq!(prev, want, "values seen by the users' increments");
        }
        obs.extra_evals(1);
    }
    obs.nontrivial(c.users >= 2);
    Ok(())
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule("(sequence) 1-14 generated observations and uses of one lazy gauge, free-standing or registered, with an initialiser that counts its runs and may panic, against a model of at most one run triggered only by a use; (statics) 8 statically declared lazy gauges through such histories, seen through their entries; (race) 2-8 threads use a fresh lazy metric at once while observers watch, many rounds per case. Non-trivial: observed before being used (sequence), at least two racing users (race).");
    ctx.check(
        "sequence",
        ctx.cases(300_000, 12),
        (proptest::collection::vec(op(), 1..14), -3i64..3, prop::bool::weighted(0.2), any::<bool>())
            .prop_map(|(ops, init, fails, registered)| Seq { ops, init, fails, registered }),
        sequence,
    );
    let uses = || prop_oneof![Just(Op::Force), Just(Op::Deref), (-5i64..5).prop_map(Op::Update)];
    ctx.check(
        "statics",
        POOL as u32,
        (proptest::collection::vec(op().prop_filter("observes", |o| !o.uses()), 0..8), uses(), proptest::collection::vec(op(), 0..8))
            .prop_map(|(before, using, after)| Pooled { before, using, after }),
        pooled,
    );
    ctx.check_conc(
        "race",
        ctx.cases(900, 10),
        (2usize..=8, 0usize..3, 0u32..40, prop::bool::weighted(0.25), Just(25u32))
            .prop_map(|(users, observers, slow, fails, rounds)| Race { users, observers, slow, fails, rounds }),
        race,
    );
    // the type alias and Default, as documented
    ctx.check("default", ctx.cases(1000, 3), any::<u8>(), |n, obs| {
        let l = LazyCounter::default();
        ensure!(!l.is_enabled() && Lazy::get(&l).is_none(), "a fresh lazy counter is enabled");
        for _ in 0..*n {
            l.increment();
        }
        ensure_eq!(Lazy::get(&l).map(|c| c.value()), if *n > 0 { Some(*n as u64) } else { None }, "lazy counter");
        obs.nontrivial(*n > 0);
        Ok(())
    });
}
