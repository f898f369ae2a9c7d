use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Barrier;

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

use crate::util::{reading, Reading};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    Inc,
    Add(u64),
    Set(u64),
    Reset,
    Read,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GOp {
    Inc,
    Dec,
    Add(i64),
    Sub(i64),
    Set(i64),
    Reset,
    Read,
}

fn cop() -> impl Strategy<Value = COp> {
    prop_oneof![
        3 => Just(COp::Inc),
        5 => gen::u64_any().prop_map(COp::Add),
        2 => gen::u64_any().prop_map(COp::Set),
        1 => Just(COp::Reset),
        1 => Just(COp::Read),
    ]
}
fn gop() -> impl Strategy<Value = GOp> {
    prop_oneof![
        2 => Just(GOp::Inc),
        2 => Just(GOp::Dec),
        4 => gen::i64_any().prop_map(GOp::Add),
        4 => gen::i64_any().prop_map(GOp::Sub),
        2 => gen::i64_any().prop_map(GOp::Set),
        1 => Just(GOp::Reset),
        1 => Just(GOp::Read),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CSeq {
    init: Option<u64>,
    ops: Vec<COp>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GSeq {
    init: Option<i64>,
    ops: Vec<GOp>,
}

fn apply_c(c: &Counter, op: &COp, model: &mut u64, obs: &mut Obs) -> CaseResult {
    let old = *model;
    let (ret, new) = match op {
        COp::Inc => (Some(c.increment()), old.wrapping_add(1)),
        COp::Add(v) => {
            obs.nontrivial(old.checked_add(*v).is_none());
            (Some(c.add(*v)), old.wrapping_add(*v))
        }
        COp::Set(v) => (Some(c.set(*v)), *v),
        COp::Reset => (Some(c.reset()), 0),
        COp::Read => (None, old),
    };
    if let Some(r) = ret {
        ensure_eq!(r, old, "previous value returned by counter {op:?}");
    }
    *model = new;
    ensure_eq!(c.value(), new, "counter after {op:?} from {old}");
    Ok(())
}

fn apply_g(c: &Gauge, op: &GOp, model: &mut i64, obs: &mut Obs) -> CaseResult {
    let old = *model;
    let (ret, new) = match op {
        GOp::Inc => (Some(c.increment()), old.wrapping_add(1)),
        GOp::Dec => (Some(c.decrement()), old.wrapping_sub(1)),
        GOp::Add(v) => {
            obs.nontrivial(old.checked_add(*v).is_none());
            (Some(c.add(*v)), old.wrapping_add(*v))
        }
        GOp::Sub(v) => {
            obs.nontrivial(old.checked_sub(*v).is_none());
            (Some(c.sub(*v)), old.wrapping_sub(*v))
        }
        GOp::Set(v) => (Some(c.set(*v)), *v),
        GOp::Reset => (Some(c.reset()), 0),
        GOp::Read => (None, old),
    };
    if let Some(r) = ret {
        ensure_eq!(r, old, "previous value returned by gauge {op:?}");
    }
    *model = new;
    ensure_eq!(c.value(), new, "gauge after {op:?} from {old}");
    Ok(())
}

fn via_registry<T: 'static>(want: *const T) -> Option<Reading> {
    let m = metrics();
    let r = m
        .iter()
        .find(|e| e.as_any().and_then(|a| a.downcast_ref::<T>()).is_some_and(|p| std::ptr::eq(p, want)))
        .map(|e| reading(e.metric()));
    r
}

fn ops_len<T: std::fmt::Debug>(s: impl Strategy<Value = T>) -> impl Strategy<Value = Vec<T>> {
    proptest::collection::vec(s, 1..40)
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule("Sequences of 1-40 counter/gauge operations with edge-biased 64-bit operands and initial values, checked after every step against wrapping arithmetic; a sequence is non-trivial if at least one step wraps around.");
    ctx.check_par(
        "counter_model",
        ctx.cases(400_000, 30),
        || (proptest::option::of(gen::u64_any()), ops_len(cop())).prop_map(|(init, ops)| CSeq { init, ops }),
        |c, obs| {
            let ctr = match c.init {
                Some(v) => Counter::with_value(v),
                None => Counter::new(),
            };
            let mut model = c.init.unwrap_or(0);
            ensure_eq!(ctr.value(), model, "initial counter value");
            for op in &c.ops {
                apply_c(&ctr, op, &mut model, obs)?;
                ensure_eq!(reading(&ctr), Reading::Counter(model), "Metric::value after {op:?}");
                ensure!(ctr.is_enabled(), "counter not enabled");
                ensure_eq!(ctr.value(), model, "counter changed by reading it after {op:?}");
            }
            let same = ctr.as_any().and_then(|a| a.downcast_ref::<Counter>()).is_some_and(|p| std::ptr::eq(p, &ctr));
            ensure!(same, "as_any does not give the counter");
            Ok(())
        },
    );
    ctx.check_par(
        "gauge_model",
        ctx.cases(400_000, 30),
        || (proptest::option::of(gen::i64_any()), ops_len(gop())).prop_map(|(init, ops)| GSeq { init, ops }),
        |c, obs| {
            let g = match c.init {
                Some(v) => Gauge::with_value(v),
                None => Gauge::new(),
            };
            let mut model = c.init.unwrap_or(0);
            ensure_eq!(g.value(), model, "initial gauge value");
            for op in &c.ops {
                apply_g(&g, op, &mut model, obs)?;
                ensure_eq!(reading(&g), Reading::Gauge(model), "Metric::value after {op:?}");
                ensure!(g.is_enabled(), "gauge not enabled");
                ensure_eq!(g.value(), model, "gauge changed by reading it after {op:?}");
            }
            let same = g.as_any().and_then(|a| a.downcast_ref::<Gauge>()).is_some_and(|p| std::ptr::eq(p, &g));
            ensure!(same, "as_any does not give the gauge");
            Ok(())
        },
    );
    ctx.check(
        "registered",
        ctx.cases(20_000, 30),
        (ops_len(cop()), ops_len(gop()), any::<bool>()),
        |(cops, gops, lazy): &(Vec<COp>, Vec<GOp>, bool), obs| {
            let (mut mc, mut mg) = (0u64, 0i64);
            obs.label_if(*lazy, "lazy");
            if *lazy {
                let c: DynBoxedMetric<LazyCounter> = MetricBuilder::new("c").build(LazyCounter::default());
                let g: DynBoxedMetric<LazyGauge> = MetricBuilder::new("g").build(LazyGauge::default());
                for op in cops {
                    apply_c(&c, op, &mut mc, obs)?;
                    ensure_eq!(via_registry::<Counter>(&**c), Some(Reading::Counter(mc)), "entry of lazy counter after {op:?}");
                }
                for op in gops {
                    apply_g(&g, op, &mut mg, obs)?;
                    ensure_eq!(via_registry::<Gauge>(&**g), Some(Reading::Gauge(mg)), "entry of lazy gauge after {op:?}");
                }
            } else {
                let c = MetricBuilder::new("c").build(Counter::new());
                let g = MetricBuilder::new("g").build(Gauge::new());
                for op in cops {
                    apply_c(&c, op, &mut mc, obs)?;
                    ensure_eq!(via_registry::<Counter>(&*c), Some(Reading::Counter(mc)), "entry of counter after {op:?}");
                }
                for op in gops {
                    apply_g(&g, op, &mut mg, obs)?;
                    ensure_eq!(via_registry::<Gauge>(&*g), Some(Reading::Gauge(mg)), "entry of gauge after {op:?}");
                }
            }
            // a statically declared metric
            let (mut ms, mut mgs) = (crate::statics::PLAIN.value(), crate::statics::GAUGE.value());
            for op in cops {
                apply_c(&crate::statics::PLAIN, op, &mut ms, obs)?;
            }
            ensure_eq!(via_registry::<Counter>(&crate::statics::PLAIN), Some(Reading::Counter(ms)), "entry of static counter");
            for op in gops {
                apply_g(&crate::statics::GAUGE, op, &mut mgs, obs)?;
            }
            ensure_eq!(via_registry::<Gauge>(&crate::statics::GAUGE), Some(Reading::Gauge(mgs)), "entry of static gauge");
            Ok(())
        },
    );
}

/// One thread's program: a short list of operations, repeated.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CPlan<Op, V> {
    init: V,
    lazy: bool,
    threads: Vec<Vec<Op>>,
    repeat: u32,
}

/// All calls were atomic read-modify-writes of one cell iff the edges
/// previous -> next form a trail from the initial to the final value.
fn trail(init: u64, last: u64, edges: &[(u64, u64)]) -> CaseResult {
    let mut deg: HashMap<u64, i64> = HashMap::new();
    let mut ids: HashMap<u64, usize> = HashMap::new();
    let mut parent: Vec<usize> = vec![];
    fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    let mut id = |v: u64, parent: &mut Vec<usize>| {
        *ids.entry(v).or_insert_with(|| {
            parent.push(parent.len());
            parent.len() - 1
        })
    };
    for (a, b) in edges {
        *deg.entry(*a).or_default() += 1;
        *deg.entry(*b).or_default() -= 1;
        let (x, y) = (id(*a, &mut parent), id(*b, &mut parent));
        let (x, y) = (find(&mut parent, x), find(&mut parent, y));
        parent[x] = y;
    }
    *deg.entry(init).or_default() -= 1;
    *deg.entry(last).or_default() += 1;
    if let Some((v, d)) = deg.iter().filter(|(_, d)| **d != 0).min() {
        return Err(format!(
            "updates were lost or duplicated: value {v} was left {} by {} call(s) than it was produced",
            if *d > 0 { "more often" } else { "less often" },
            d.abs()
        ));
    }
    if !edges.is_empty() {
        let r = id(init, &mut parent);
        let root = find(&mut parent, r);
        for i in 0..parent.len() {
            if find(&mut parent, i) != root {
                return Err("the returned previous values do not form one history from the initial value".into());
            }
        }
    }
    Ok(())
}

fn run_conc<T: Sync, Op: Sync>(
    shared: &T,
    plan: &CPlan<Op, u64>,
    step: impl Fn(&T, &Op) -> Option<(u64, u64)> + Sync,
    read: impl Fn(&T) -> u64 + Sync,
    monotone: bool,
    obs: &mut Obs,
) -> CaseResult {
    let n = plan.threads.len();
    let start = Barrier::new(n + 1);
    let running = AtomicUsize::new(n);
    let stop = AtomicBool::new(false);
    let (all, back, seen) = std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .threads
            .iter()
            .map(|ops| {
                let (start, running, step) = (&start, &running, &step);
                s.spawn(move || {
                    let mut v = Vec::with_capacity(ops.len() * plan.repeat as usize);
                    start.wait();
                    for _ in 0..plan.repeat {
                        for op in ops {
                            if let Some(e) = step(shared, op) {
                                v.push(e);
                            }
                        }
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                    v
                })
            })
            .collect();
        start.wait();
        let mut back = None;
        let mut last = read(shared);
        let mut seen = vec![last];
        while running.load(Ordering::SeqCst) > 0 && !stop.load(Ordering::Relaxed) {
            let now = read(shared);
            if monotone && now < last {
                back = Some((last, now));
            }
            if now != last && seen.len() < 200_000 {
                seen.push(now);
            }
            last = now;
        }
        let all: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        (all, back, seen)
    });
    let mut edges = vec![];
    let mut switched = false;
    for r in all {
        let v = r.map_err(|e| format!("an updating thread panicked: {}", vcommon::panic_text(&*e)))?;
        switched |= v.windows(2).any(|w| w[0].1 != w[1].0);
        edges.extend(v);
    }
    obs.nontrivial(switched);
    obs.label_if(switched, "updates of threads interleaved");
    obs.extra_evals(edges.len() as u64);
    if let Some((a, b)) = back {
        return Err(format!("a reader saw an only-increased counter go from {a} back to {b}"));
    }
    trail(plan.init, read(shared), &edges)?;
    // what a reader saw is what some update left behind
    obs.label_if(seen.len() > 10, "a reader saw more than ten values");
    let held: std::collections::HashSet<u64> = edges.iter().map(|e| e.1).chain([plan.init]).collect();
    match seen.iter().find(|v| !held.contains(v)) {
        Some(v) => Err(format!("a reader saw {v}, a value no update had left")),
        None => Ok(()),
    }
}

fn plan<Op: std::fmt::Debug + Clone + 'static>(
    op: impl Strategy<Value = Op> + Clone + 'static,
    init: impl Strategy<Value = u64> + 'static,
) -> impl Strategy<Value = CPlan<Op, u64>> {
    (
        init,
        any::<bool>(),
        proptest::collection::vec(proptest::collection::vec(op, 1..6), 2..=8),
        prop_oneof![3 => 200u32..1500, 1 => 4000u32..8000],
    )
        .prop_map(|(init, lazy, threads, repeat)| CPlan { init, lazy, threads, repeat })
}

fn c_step(c: &Counter, op: &COp) -> Option<(u64, u64)> {
    Some(match op {
        COp::Inc => {
            let o = c.increment();
            (o, o.wrapping_add(1))
        }
        COp::Add(v) => {
            let o = c.add(*v);
            (o, o.wrapping_add(*v))
        }
        COp::Set(v) => (c.set(*v), *v),
        COp::Reset => (c.reset(), 0),
        COp::Read => {
            c.value();
            return None;
        }
    })
}

fn g_step(c: &Gauge, op: &GOp) -> Option<(u64, u64)> {
    let (a, b) = match op {
        GOp::Inc => {
            let o = c.increment();
            (o, o.wrapping_add(1))
        }
        GOp::Dec => {
            let o = c.decrement();
            (o, o.wrapping_sub(1))
        }
        GOp::Add(v) => {
            let o = c.add(*v);
            (o, o.wrapping_add(*v))
        }
        GOp::Sub(v) => {
            let o = c.sub(*v);
            (o, o.wrapping_sub(*v))
        }
        GOp::Set(v) => (c.set(*v), *v),
        GOp::Reset => (c.reset(), 0),
        GOp::Read => {
            c.value();
            return None;
        }
    };
    Some((a as u64, b as u64))
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule("2-8 threads each run a generated program of updates 200-8000 times on one shared counter or gauge (plain or lazy); the previous values returned by all calls must form a trail from the initial to the final value (one sequential order explains them), and with additions only a concurrent reader must never see a decrease; whatever a reader sees is a value some update left. Non-trivial: the threads' updates really interleaved (some thread's next call did not start from its own last result). evaluations counts update calls.");
    ctx.assume("the operating system's scheduler picks the interleavings; 8 threads in tight loops on up to 8 cores");
    let small = prop_oneof![Just(COp::Inc), (1u64..1000).prop_map(COp::Add)];
    ctx.check_conc(
        "counter_adds",
        ctx.cases(600, 10),
        plan(small, 0u64..1000),
        |p, obs| {
            if p.lazy {
                let init = p.init;
                let c = Lazy::new(move || Counter::with_value(init));
                run_conc(&c, p, |c, op| c_step(c, op), |c| Lazy::force(c).value(), true, obs)
            } else {
                run_conc(&Counter::with_value(p.init), p, c_step, Counter::value, true, obs)
            }
        },
    );
    // steps that carry from the low into the high part of the word nearly every time
    let step = || prop::sample::select(vec![(1u64 << 32) - 1, (1 << 32) + 1, 3 << 30, (1 << 16) - 1, (1 << 31) + 5, (1 << 44) - 1, 255, (1 << 40) + (1 << 31)]);
    ctx.check_conc("counter_carries", ctx.cases(300, 10), plan(step().prop_map(COp::Add), 0u64..1000), |p, obs| {
        if p.lazy {
            let init = p.init;
            let c = Lazy::new(move || Counter::with_value(init));
            run_conc(&c, p, |c, op| c_step(c, op), |c| Lazy::force(c).value(), true, obs)
        } else {
            run_conc(&Counter::with_value(p.init), p, c_step, Counter::value, true, obs)
        }
    });
    let gstep = prop_oneof![step().prop_map(|v| GOp::Add(v as i64)), step().prop_map(|v| GOp::Sub(v as i64))];
    ctx.check_conc("gauge_carries", ctx.cases(300, 10), plan(gstep, 0u64..1000), |p, obs| {
        run_conc(&Gauge::with_value(p.init as i64), p, g_step, |g: &Gauge| g.value() as u64, false, obs)
    });
    let mixed = prop_oneof![
        4 => cop(),
        2 => (0u64..4).prop_map(COp::Set),
        2 => Just(COp::Reset),
        2 => (0u64..4).prop_map(COp::Add),
    ];
    ctx.check_conc("counter_mixed", ctx.cases(900, 10), plan(mixed, gen::u64_any()), |p, obs| {
        if p.lazy {
            let init = p.init;
            let c = Lazy::new(move || Counter::with_value(init));
            run_conc(&c, p, |c, op| c_step(c, op), |c| Lazy::force(c).value(), false, obs)
        } else {
            run_conc(&Counter::with_value(p.init), p, c_step, Counter::value, false, obs)
        }
    });
    let gmixed = prop_oneof![
        4 => gop(),
        2 => Just(GOp::Inc),
        2 => Just(GOp::Dec),
        2 => (-2i64..4).prop_map(GOp::Add),
        2 => (-2i64..4).prop_map(GOp::Sub),
        1 => Just(GOp::Reset),
    ];
    ctx.check_conc("gauge_mixed", ctx.cases(900, 10), plan(gmixed, gen::u64_any()), |p, obs| {
        if p.lazy {
            let init = p.init as i64;
            let c = Lazy::new(move || Gauge::with_value(init));
            run_conc(&c, p, |c, op| g_step(c, op), |c| Lazy::force(c).value() as u64, false, obs)
        } else {
            run_conc(&Gauge::with_value(p.init as i64), p, g_step, |g: &Gauge| g.value() as u64, false, obs)
        }
    });
    // every pair of update kinds racing, so that each update is in a hot loop
    let pair = (0usize..5, 0usize..7, any::<bool>()).prop_map(|(a, b, lazy)| {
        let c = [COp::Inc, COp::Add(3), COp::Set(7), COp::Reset, COp::Add(u64::MAX)];
        let g = [GOp::Inc, GOp::Dec, GOp::Add(5), GOp::Sub(3), GOp::Set(9), GOp::Reset, GOp::Sub(i64::MIN)];
        let _ = &c;
        (a, b, lazy, c[a].clone(), g[b].clone())
    });
    ctx.check_conc(
        "pairs",
        ctx.cases(600, 10),
        pair,
        |(_, _, lazy, c, g): &(usize, usize, bool, COp, GOp), obs| {
            let t = |o: &COp| vec![o.clone()];
            let p = CPlan { init: 0, lazy: *lazy, threads: vec![t(c), t(c), vec![COp::Inc], t(c), vec![COp::Inc]], repeat: 3000 };
            let q = CPlan {
                init: 0,
                lazy: *lazy,
                threads: vec![vec![g.clone()], vec![g.clone()], vec![GOp::Inc], vec![g.clone()], vec![GOp::Dec]],
                repeat: 3000,
            };
            run_conc(&Counter::new(), &p, c_step, Counter::value, false, obs)?;
            run_conc(&Gauge::new(), &q, g_step, |g: &Gauge| g.value() as u64, false, obs)
        },
    );
}
