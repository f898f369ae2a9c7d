//! C27: programs without `unsafe` that would reach a destroyed or moved
//! metric, or share what may not be shared, are not accepted by the compiler.
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde::{Deserialize, Serialize};
use vcommon::{CaseResult, Ctx, Obs};

use crate::project::*;

/// What is borrowed from.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Owner {
    /// a view of all metrics; `step` says how an entry is taken from it
    View,
    Boxed,
    Pinned,
    PinBox,
    Lazy,
    LazyBoxed,
    Own,
    Metadata,
}

/// How the borrowed thing gets to where its owner is gone.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Route {
    Block,
    DropFirst,
    Return,
    Closure,
    Static,
    Thread,
    Outer,
    Reassign,
    Move,
    Temporary,
}

/// What the escaping value is wrapped in.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Wrap {
    Plain,
    Some,
    Tuple,
    Vec,
    Boxed,
    Closure,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Case {
    Escape { owner: Owner, step: u8, reach: u8, route: Route, wrap: Wrap },
    /// registering without pinning, or moving after registering
    Pin { metric: u8, how: u8 },
    /// handing over what may not be shared or kept
    Bound { place: u8, what: u8 },
    /// getting hold of an entry that outlives its metric, or of a metric
    /// mutably while it is registered
    Take { metric: u8, step: u8, how: u8 },
    /// providing references to what is gone
    Provide { how: u8, what: u8 },
}

/// An entry out of the view `$`.
const STEPS: &[&str] = &[
    "$.iter().next().unwrap()",
    "$.iter().next_back().unwrap()",
    "$.iter().nth(0).unwrap()",
    "$.iter().nth_back(0).unwrap()",
    "$.iter().last().unwrap()",
    "$.iter().rev().next().unwrap()",
    "(&$).into_iter().next().unwrap()",
    "$.dynamic_metrics().next().unwrap()",
    "$.dynamic_metrics().next_back().unwrap()",
    "$.dynamic_metrics().nth(0).unwrap()",
    "$.dynamic_metrics().nth_back(0).unwrap()",
    "$.dynamic_metrics().last().unwrap()",
    "$.iter().find(|e| e.name() == \"x\").unwrap()",
    "$.dynamic_metrics().find(|e| e.name() == \"x\").unwrap()",
    "$.iter().max_by_key(|e| e.name().len()).unwrap()",
    "$.iter().fold(None, |_, e| Some(e)).unwrap()",
    "$.iter().rfold(None, |_, e| Some(e)).unwrap()",
    "$.dynamic_metrics().fold(None, |_, e| Some(e)).unwrap()",
    "$.iter().collect::<Vec<_>>().pop().unwrap()",
    "$.dynamic_metrics().collect::<Vec<_>>()[0]",
    "$.iter().skip(1).step_by(2).peekable().peek().copied().unwrap()",
    "$.iter().zip($.dynamic_metrics()).map(|(a, _)| a).next().unwrap()",
    "{ let mut last = None; for e in &$ { last = Some(e); } last.unwrap() }",
    "{ let mut last = None; for e in $.dynamic_metrics() { last = Some(e); } last.unwrap() }",
];

/// What is reached through the entry `@`; may it be shared between threads?
const REACH: &[(&str, bool)] = &[
    ("@", true),
    ("@.name()", true),
    ("@.description()", true),
    ("@.metadata()", true),
    ("@.metadata().get(\"k\")", true),
    ("@.metadata().iter()", true),
    ("@.metadata().iter().next()", true),
    ("@.metric()", true),
    ("&**@", true),
    ("@.as_any()", false),
    ("@.metric().as_any().unwrap()", false),
    ("@.as_any().and_then(|a| a.downcast_ref::<Counter>())", true),
    ("@.value()", false),
    ("@.metric().value().unwrap()", false),
    ("@.request_ref::<u64>()", true),
    ("@.request_ref::<str>()", true),
    ("metriken_core::request_ref::<u64>(@.metric())", true),
    ("metriken_core::request_ref::<Metadata>(@.metric())", true),
];

/// The view's iterators themselves.
const ITERS: &[&str] = &["$.iter()", "$.dynamic_metrics()", "(&$).into_iter()", "$.iter().rev()", "$.iter().map(|e| e.name())", "$.dynamic_metrics().enumerate()", "$.iter().collect::<Vec<_>>()"];

fn owner_expr(o: Owner) -> &'static str {
    match o {
        Owner::View => "metriken::metrics()",
        Owner::Boxed => "MetricBuilder::new(\"a\").build(Counter::new())",
        Owner::Pinned => "MetricBuilder::new(\"a\").build_pinned(Counter::new()).0",
        Owner::PinBox => "Box::pin(MetricBuilder::new(\"a\").build_pinned(Counter::new()).0)",
        Owner::Lazy => "Lazy::<Counter>::new(Counter::new)",
        Owner::LazyBoxed => "MetricBuilder::new(\"a\").build(Lazy::<Counter>::new(Counter::new))",
        Owner::Own => "MetricBuilder::new(\"a\").provide(5u64).build(Own(5, String::new()))",
        Owner::Metadata => "Metadata::new([(String::from(\"a\"), String::from(\"b\"))].into())",
    }
}

fn owner_reach(o: Owner) -> &'static [(&'static str, bool)] {
    match o {
        Owner::View => REACH,
        Owner::Boxed => &[("&*$", true), ("$.as_any()", false), ("Metric::value(&*$)", false), ("$.as_any().unwrap().downcast_ref::<Counter>().unwrap()", true), ("std::ops::Deref::deref(&$)", true), ("metriken_core::request_ref::<u64>(&*$)", true)],
        Owner::Pinned => &[("&*$", true), ("$.as_any()", false), ("Metric::value(&*$)", false), ("std::ops::Deref::deref(&$)", true)],
        Owner::PinBox => &[("&**$", true), ("$.as_ref()", true), ("$.as_any()", false), ("Metric::value(&**$)", false)],
        Owner::Lazy => &[("&*$", true), ("Lazy::get(&$)", true), ("Lazy::force(&$)", true), ("$.as_any()", false), ("Metric::value(&*$)", false), ("Metric::as_any(&$)", false), ("Metric::value(&$)", false)],
        Owner::LazyBoxed => &[("&*$", true), ("&**$", true), ("Lazy::get(&$)", true), ("Lazy::force(&$)", true), ("Lazy::get(&*$)", true), ("Metric::as_any(&*$)", false), ("Metric::value(&*$)", false)],
        Owner::Own => &[("&*$", true), ("$.text()", true), ("$.as_any()", false), ("$.value()", false), ("metriken_core::request_ref::<u64>(&*$)", true), ("metriken_core::request_ref::<str>(&*$)", true), ("$.as_any().unwrap().downcast_ref::<Own>().unwrap().text()", true)],
        Owner::Metadata => &[("$.get(\"a\")", true), ("$.iter()", true), ("$.iter().next()", true), ("$.iter().map(|(k, _)| k).last()", true), ("(&$).into_iter().next()", true)],
    }
}

const METRICS: &[&str] = &["Counter::new()", "Gauge::new()", "AtomicHistogram::new(5, 64)", "RwLockHistogram::new(5, 64)", "LazyCounter::new(Counter::new)", "Own(5, String::new())", "Lazy::<Own>::new(|| Own(5, String::new()))", "Generic(5u8)", "Generic(Counter::new())"];

impl Case {
    /// The body of the program, with its offence or without.
    fn body(&self, bad: bool) -> String {
        match self {
            Case::Escape { owner, step, reach, route, wrap } => {
                let (step, reach) = (*step as usize, *reach as usize);
                let value = if *owner == Owner::View {
                    let all = REACH.len() + 2;
                    match reach % all {
                        r if r < REACH.len() => REACH[r].0.replace('@', &format!("({})", STEPS[step % STEPS.len()])),
                        _ => ITERS[step % ITERS.len()].to_string(),
                    }
                } else {
                    let r = owner_reach(*owner);
                    r[reach % r.len()].0.to_string()
                };
                let make = owner_expr(*owner);
                let value = match (wrap, bad && *route == Route::Temporary) {
                    (Wrap::Plain, _) => value,
                    (Wrap::Some, _) => format!("Some({value})"),
                    (Wrap::Tuple, _) => format!("({value}, 1)"),
                    (Wrap::Vec, _) => format!("vec![{value}]"),
                    (Wrap::Boxed, _) => format!("Box::new({value})"),
                    (Wrap::Closure, true) => format!("Some({value})"),
                    (Wrap::Closure, false) => format!("{{ let x = {value}; move || sink(&x) }}"),
                };
                let on_v = value.replace('$', "v");
                if !bad {
                    return match route {
                        Route::Thread => format!("let v = {make}; let r = {on_v}; std::thread::scope(|s| {{ s.spawn(move || sink(&r)); }}); drop(v);"),
                        Route::Reassign => format!("let mut v = {make}; {{ let r = {on_v}; sink(&r); }} v = {make}; sink(&v);"),
                        Route::Outer => format!("let v = {make}; {{ let mut out = Vec::new(); out.push({on_v}); sink(&out); }} drop(v);"),
                        _ => format!("let v = {make}; {{ let r = {on_v}; sink(&r); }} drop(v);"),
                    };
                }
                match route {
                    Route::Block => format!("let r = {{ let v = {make}; let r = {on_v}; r }}; sink(&r);"),
                    Route::DropFirst => format!("let v = {make}; let r = {on_v}; drop(v); sink(&r);"),
                    Route::Return => format!("fn inner() -> impl Sized {{ let v = {make}; let r = {on_v}; r }} let r = inner(); sink(&r);"),
                    Route::Closure => format!("let c = || {{ let v = {make}; let r = {on_v}; r }}; sink(&c());"),
                    Route::Static => format!("let v = {make}; {{ let r = {on_v}; forever(r); }} drop(v);"),
                    Route::Thread => format!("let v = {make}; let r = {on_v}; let t = std::thread::spawn(move || sink(&r)); drop(v); t.join().unwrap();"),
                    Route::Outer => format!("let mut out = Vec::new(); {{ let v = {make}; out.push({on_v}); }} sink(&out);"),
                    Route::Reassign => format!("let mut v = {make}; let r = {on_v}; v = {make}; sink(&r); sink(&v);"),
                    Route::Move => format!("let v = {make}; let r = {on_v}; let b = Box::new(v); sink(&r); drop(b);"),
                    Route::Temporary => format!("let r; r = {}; sink(&r);", value.replace('$', &format!("({make})"))),
                }
            }
            Case::Pin { metric, how } => {
                let m = METRICS[*metric as usize % METRICS.len()];
                let (g, b) = [
                    ("let m = std::pin::pin!(m); m.as_ref().register(e);", "m.register(e);"),
                    ("let m = Box::pin(m); m.as_ref().register(e);", "Pin::new(&m).register(e);"),
                    ("let m = Arc::pin(m); m.as_ref().register(e);", "let m = Arc::new(m); Pin::new(&*m).register(e);"),
                    ("let m = Box::pin(m); m.as_ref().register(e);", "let m = Box::new(m); Pin::new(&*m).register(e); let m = *m; sink(&m);"),
                    ("let m = Rc::pin(m); m.as_ref().register(e);", "let m = Pin::new(Rc::new(m)); m.as_ref().register(e); let m = Rc::try_unwrap(Pin::into_inner(m)); sink(&m);"),
                    ("let m = Box::pin(m); m.as_ref().register(e); drop(m);", "let m = Box::pin(m); m.as_ref().register(e); let m = *Pin::into_inner(m); drop(m);"),
                    ("let mut m = Box::pin(m); m.as_ref().register(e); sink(&m.as_mut());", "let mut m = Box::pin(m); m.as_ref().register(e); sink(m.as_mut().get_mut());"),
                    ("let m = Box::pin(m); let mut o = Box::pin(o); m.as_ref().register(e); o.as_mut().set(MetricBuilder::new(\"c\").build_pinned($).0);", "let mut m = Box::pin(m); let mut o = o; m.as_ref().register(e); std::mem::swap(m.as_mut().get_mut(), &mut o);"),
                    ("let mut m = std::pin::pin!(m); m.as_ref().register(e); sink(&m.as_mut());", "let mut m = std::pin::pin!(m); m.as_ref().register(e); let o = std::mem::replace(&mut *m, o); sink(&o);"),
                    ("let h = Holder { m }; let h = Box::pin(h); sink(&h);", "let h = Holder { m }; Pin::new(&h.m).register(e); let h = Box::new(h); sink(&h);"),
                    ("let v = vec![m]; sink(&v);", "let mut v = vec![m]; Pin::new(&v[0]).register(e); v.push(o); sink(&v);"),
                    ("let b = MetricBuilder::new(\"c\").build($); sink(&b);", "let r = { let m = std::pin::pin!(m); m.as_ref().register(e); m }; sink(&r);"),
                    ("is_send(&m); sink(&e);", "is_unpin(&m); sink(&e);"),
                    ("let h = Holder { m }; is_send(&h); sink(&e);", "let h = Holder { m }; is_unpin(&h); sink(&e);"),
                    ("let m = Some(m); sink(&m);", "let mut m = Some(m); Pin::new(m.as_ref().unwrap()).register(e); let m = m.take(); sink(&m);"),
                ][*how as usize % 15];
                format!("let (m, e) = MetricBuilder::new(\"a\").build_pinned({m}); let (o, _) = MetricBuilder::new(\"b\").build_pinned({m}); {}", if bad { b } else { g }.replace('$', m))
            }
            Case::Bound { place, what } => {
                // (type, value) that may be shared, and that may not
                let (good, bads) = [
                    (("AtomicU64", "AtomicU64::new(1)"), ("Cell<u64>", "Cell::new(1)")),
                    (("Mutex<u64>", "Mutex::new(1)"), ("RefCell<u64>", "RefCell::new(1)")),
                    (("Arc<u64>", "Arc::new(1)"), ("Rc<u64>", "Rc::new(1)")),
                    (("Arc<str>", "Arc::from(\"a\")"), ("Rc<str>", "Rc::from(\"a\")")),
                    (("std::sync::OnceLock<u64>", "std::sync::OnceLock::new()"), ("std::cell::OnceCell<u64>", "std::cell::OnceCell::new()")),
                    (("&'static u64", "&5"), ("*const u64", "std::ptr::null()")),
                    (("Box<dyn std::any::Any + Send + Sync>", "Box::new(1u64)"), ("Box<dyn std::any::Any>", "Box::new(1u64)")),
                    (("Box<fn()>", "Box::new(|| {})"), ("Box<dyn Fn() + Send>", "Box::new(|| {})")),
                    (("Vec<Arc<u64>>", "Vec::new()"), ("Vec<Rc<u64>>", "Vec::new()")),
                    (("Option<std::sync::Weak<u64>>", "None"), ("Option<std::rc::Weak<u64>>", "None")),
                    (("std::sync::RwLock<u64>", "std::sync::RwLock::new(1)"), ("std::sync::RwLockReadGuard<'static, u64>", "LOCK.read().unwrap()")),
                    (("Arc<Mutex<u64>>", "Default::default()"), ("Arc<Cell<u64>>", "Default::default()")),
                    (("std::sync::Barrier", "std::sync::Barrier::new(1)"), ("std::sync::mpsc::Receiver<u64>", "std::sync::mpsc::channel().1")),
                    (("Metadata", "Metadata::new(Default::default())"), ("(Metadata, Cell<u8>)", "(Metadata::new(Default::default()), Cell::new(1))")),
                ][*what as usize % 14];
                // an initialiser may be what cannot be shared, but not what
                // cannot be sent
                let initialiser = [3, 5, 12, 13, 14].contains(&(place % 20));
                let bads = match bads.0 {
                    "Cell<u64>" | "RefCell<u64>" | "std::cell::OnceCell<u64>" | "std::sync::mpsc::Receiver<u64>" | "Box<dyn Fn() + Send>" | "(Metadata, Cell<u8>)" if initialiser => ("Rc<u8>", "Rc::new(1)"),
                    _ => bads,
                };
                let (ty, val) = if bad { bads } else { good };
                match place % 20 {
                    0 => format!("struct M({ty}); impl Metric for M {{ fn as_any(&self) -> Option<&dyn std::any::Any> {{ None }} fn value(&self) -> Option<Value<'_>> {{ None }} }} sink(&M({val}));"),
                    1 => format!("let x: {ty} = {val}; let m = MetricBuilder::new(\"a\").provide(x).build(Counter::new()); sink(&m);"),
                    2 => format!("let x: {ty} = {val}; let m = MetricBuilder::new(\"a\").provide(5u8).provide((1u8, x)).build_pinned(Counter::new()); sink(&m);"),
                    3 => format!("let x: {ty} = {val}; let l = Lazy::<Counter, _>::new(move || {{ sink(&x); Counter::new() }}); is_sync(&l);"),
                    4 => format!("let l: Lazy<{ty}> = Lazy::new(|| {val}); is_sync(&l);"),
                    5 => format!("let x: {ty} = {val}; let l = Lazy::<Counter, _>::new(move || {{ sink(&x); Counter::new() }}); let m = MetricBuilder::new(\"a\").build(l); sink(&m);"),
                    6 => format!("let x: {ty} = {val}; let m = MetricBuilder::new(\"a\").build(Generic(x)); sink(&m);"),
                    7 => format!("let x: {ty} = {val}; let m = MetricBuilder::new(\"a\").build_pinned(Generic(x)); sink(&m);"),
                    8 => format!("let l: Lazy<Generic<{ty}>> = Lazy::new(|| Generic({val})); let m = MetricBuilder::new(\"a\").build(l); sink(&m);"),
                    9 => format!("#[metric] static M: Generic<Option<{ty}>> = Generic(None); sink(&M);"),
                    10 => format!("#[metric] static M: Lazy<Generic<{ty}>> = Lazy::new(|| Generic({val})); sink(&M);"),
                    11 => format!("let x: {ty} = {val}; let l = Lazy::<{ty}, _>::new(move || x); is_sync(&l);"),
                    12 => format!("let x: {ty} = {val}; is_metric(&Lazy::<Counter, _>::new(move || {{ sink(&x); Counter::new() }}));"),
                    13 => format!("let x: {ty} = {val}; let l = Lazy::<Counter, _>::new(move || {{ sink(&x); Counter::new() }}); is_send(&l);"),
                    14 => format!("let l: Lazy<{ty}> = Lazy::new(|| {val}); is_send(&l);"),
                    15 if bad => "struct M<'a>(&'a u64); impl<'a> Metric for M<'a> { fn as_any(&self) -> Option<&dyn std::any::Any> { None } fn value(&self) -> Option<Value<'_>> { None } } sink(&M(&5));".into(),
                    15 => "struct M(&'static u64); impl Metric for M { fn as_any(&self) -> Option<&dyn std::any::Any> { None } fn value(&self) -> Option<Value<'_>> { None } } sink(&M(&5));".into(),
                    16 if bad => "struct M<T>(T); impl<T: Send + Sync> Metric for M<T> { fn as_any(&self) -> Option<&dyn std::any::Any> { None } fn value(&self) -> Option<Value<'_>> { None } } sink(&M(5));".into(),
                    16 => "struct M<T>(T); impl<T: Send + Sync + 'static> Metric for M<T> { fn as_any(&self) -> Option<&dyn std::any::Any> { None } fn value(&self) -> Option<Value<'_>> { None } } sink(&M(5));".into(),
                    17 if bad => "let v = metriken::metrics(); std::thread::scope(|s| { s.spawn(move || sink(&v)); });".into(),
                    17 => "let v = metriken::metrics(); std::thread::scope(|s| { s.spawn(|| sink(&v)); });".into(),
                    18 => format!("struct P({ty}); impl metriken_core::export::InjectedProvider for P {{ fn provide(_: &mut metriken_core::Request<'_>) {{}} }} let x: {ty} = {val}; sink(&x);"),
                    _ => format!("fn each<T: Metric>() {{}} each::<metriken_core::export::MetricWrapper<Generic<{ty}>, Injected>>(); let x: {ty} = {val}; sink(&x);"),
                }
            }
            Case::Take { metric, step, how } => {
                let m = METRICS[*metric as usize % METRICS.len()];
                let e = STEPS[*step as usize % STEPS.len()].replace('$', "v");
                let (g, b) = [
                    ("let own: &MetricEntry = e; sink(own);", "let own: MetricEntry = e.clone(); drop(v); sink(&own);"),
                    ("let own: &MetricEntry = &*e; sink(own);", "let own: MetricEntry = *e; drop(v); sink(&own);"),
                    ("let own: Vec<&MetricEntry> = v.iter().collect(); sink(&own); sink(e);", "let own: Vec<MetricEntry> = v.iter().cloned().collect(); sink(&own); sink(e);"),
                    ("let own: Vec<&MetricEntry> = v.dynamic_metrics().collect(); sink(&own); sink(e);", "let own: Vec<MetricEntry> = v.dynamic_metrics().map(|e| e.to_owned()).collect(); sink(&own); sink(e);"),
                    ("let own: &MetricEntry = e; sink(own);", "let own = MetricEntry { metric: e.metric(), name: \"a\".into(), description: None }; sink(&own);"),
                    ("let own = MetricBuilder::new(\"x\").into_entry(); sink(&own); sink(e);", "let mut own = MetricBuilder::new(\"x\").into_entry(); own.metric = e.metric(); sink(&own);"),
                    ("let own: &MetricEntry = &MetricBuilder::new(\"x\").into_entry(); sink(own); sink(e);", "let mut own = MetricBuilder::new(\"x\").into_entry(); std::mem::swap(&mut own, e); sink(&own);"),
                    ("static C: Counter = Counter::new(); let own = metriken_core::export::entry_v1(&C, \"a\", None); sink(&own); sink(e);", "let c = $; let own = metriken_core::export::entry_v1(&c, \"a\", None); drop(c); sink(&own); sink(e);"),
                    ("static C: Counter = Counter::new(); let own = metriken_core::export::entry_v1(&C, \"a\", None); sink(&own); sink(e);", "let h = MetricBuilder::new(\"a\").build($); let own = metriken_core::export::entry_v1(&*h, \"a\", None); drop(h); sink(&own); sink(e);"),
                    ("let h = MetricBuilder::new(\"a\").build($); let r = &*h; sink(r); sink(e);", "let mut h = MetricBuilder::new(\"a\").build($); let r = &mut *h; sink(r); sink(e);"),
                    ("let h = Box::pin(MetricBuilder::new(\"a\").build_pinned($).0); let r = &**h; sink(r); sink(e);", "let mut h = Box::pin(MetricBuilder::new(\"a\").build_pinned($).0); let r = &mut **h; sink(r); sink(e);"),
                    ("let h = MetricBuilder::new(\"a\").build($); sink(&h); sink(e);", "let mut h = MetricBuilder::new(\"a\").build($); *h = $; sink(&h); sink(e);"),
                    ("let h = MetricBuilder::new(\"a\").build($); sink(&h); sink(e);", "let h = MetricBuilder::new(\"a\").build($); let m = *h; sink(&m); sink(e);"),
                    ("let s = String::from(\"a\"); let h = MetricBuilder::new(s.clone()).build($); drop(s); sink(&h); sink(e);", "let s = String::from(\"a\"); let h = MetricBuilder::new(&*s).build($); drop(s); sink(&h); sink(e);"),
                    ("let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").description(s.clone()).build($); drop(s); sink(&h); sink(e);", "let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").description(&*s).build($); drop(s); sink(&h); sink(e);"),
                    ("let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").provide(s.clone()).build($); drop(s); sink(&h); sink(e);", "let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").provide(&*s).build($); drop(s); sink(&h); sink(e);"),
                    ("let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").formatter(|e, _| e.name().to_string()).build($); drop(s); sink(&h); sink(e);", "let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").formatter(|_, _| s.clone()).build($); drop(s); sink(&h); sink(e);"),
                    ("let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").build(Generic(s.clone())); drop(s); sink(&h); sink(e);", "let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").build(Generic(&*s)); drop(s); sink(&h); sink(e);"),
                    ("let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").build(lazy(move || Generic(s))); sink(&h); sink(e);", "let s = String::from(\"a\"); let h = MetricBuilder::new(\"n\").build(lazy(|| Generic(s.clone()))); drop(s); sink(&h); sink(e);"),
                    ("let mut l = lazy(|| $); { let r = &*l; sink(r); } let w = &mut *l; sink(w); sink(e);", "let mut l = lazy(|| $); let r = &*l; let w = &mut *l; sink(r); sink(w); sink(e);"),
                    ("let mut l = lazy(|| $); { let r = Lazy::get(&l); sink(&r); } let w = Lazy::get_mut(&mut l); sink(&w); sink(e);", "let mut l = lazy(|| $); let r = Lazy::get(&l); let w = Lazy::get_mut(&mut l); sink(&r); sink(&w); sink(e);"),
                    ("let mut l = lazy(|| $); let w = Lazy::get_mut(&mut l); sink(&w); sink(e);", "let l = lazy(|| $); let w = Lazy::get_mut(&l); sink(&w); sink(e);"),
                    ("let mut l = lazy(|| $); { let w = &mut *l; sink(w); } { let x = &mut *l; sink(x); } sink(e);", "let mut l = lazy(|| $); let w = &mut *l; let x = &mut *l; sink(w); sink(x); sink(e);"),
                    ("let mut l = lazy(|| $); let w = &mut *l; sink(w); sink(e);", "let l = lazy(|| $); let w = &mut *l; sink(w); sink(e);"),
                ][*how as usize % 24];
                format!("let v = metriken::metrics(); let e = {e}; {}", if bad { b } else { g }.replace('$', m))
            }
            Case::Provide { how, what } => {
                let (ty, good, here, there) = [
                    ("u64", "&self.0", "5u64", "&here"),
                    ("str", "&*self.1", "String::from(\"x\")", "&*here"),
                    ("String", "&self.1", "String::from(\"x\")", "&here"),
                    ("[u8]", "self.1.as_bytes()", "vec![1u8]", "&*here"),
                    ("dyn Send", "&self.0 as &dyn Send", "Box::new(String::new())", "&*here as &dyn Send"),
                    ("Metadata", "&self.2", "Metadata::new(Default::default())", "&here"),
                    ("Metadata", "&*DATA", "Metadata::new(Default::default())", "&here"),
                    ("Counter", "&self.3", "Counter::new()", "&here"),
                ][*what as usize % 8];
                let value = if bad { there } else { good };
                // what is borrowed from the metric is no value of its own
                let own = if good == "&*DATA" { "&self.2" } else { good };
                let call = match how % 7 {
                    0 => format!("request.provide_ref::<{ty}>({value});"),
                    1 => format!("request.provide_ref_with::<{ty}>(|| {value});"),
                    2 if bad => format!("request.provide_value::<&{ty}>({own});"),
                    2 => format!("request.provide_value::<Option<&'static {ty}>>(None);"),
                    3 if bad => format!("request.provide_value_with::<&{ty}>(|| {own});"),
                    3 => format!("request.provide_value_with::<Option<&'static {ty}>>(|| None);"),
                    4 => format!("request.provide_value(1u8).provide_ref::<{ty}>({value}).provide_value(2u16);"),
                    _ => String::new(),
                };
                let call = format!("let here = {here}; {call} sink(&here);");
                if how % 7 == 6 {
                    let value = if bad { there } else if good == "&*DATA" { good } else { "Default::default()" };
                    let call = if value == "Default::default()" { format!("request.provide_value::<Option<&'static {ty}>>({value});") } else { format!("request.provide_ref::<{ty}>({value});") };
                    return format!("static DATA: std::sync::LazyLock<Metadata> = std::sync::LazyLock::new(|| Metadata::new(Default::default())); struct P; impl metriken_core::export::InjectedProvider for P {{ fn provide(request: &mut metriken_core::Request<'_>) {{ let here = {here}; {call} sink(&here); }} }} sink(&*DATA);");
                }
                if how % 7 == 5 {
                    let v = if bad { "Some(Value::Other(&String::from(\"x\")))" } else { "Some(Value::Other(&self.1))" };
                    return format!("struct M(u64, String); impl Metric for M {{ fn as_any(&self) -> Option<&dyn std::any::Any> {{ None }} fn value(&self) -> Option<Value<'_>> {{ {v} }} }} sink(&M(1, String::new()));");
                }
                format!("static DATA: std::sync::LazyLock<Metadata> = std::sync::LazyLock::new(|| Metadata::new(Default::default())); struct M(u64, String, Metadata, Counter); impl Metric for M {{ fn as_any(&self) -> Option<&dyn std::any::Any> {{ None }} fn value(&self) -> Option<Value<'_>> {{ None }} fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) {{ {call} }} }} sink(&M(1, String::new(), Metadata::new(Default::default()), Counter::new())); sink(&*DATA);")
            }
        }
    }

    fn source(&self, id: usize, bad: bool) -> String {
        format!("pub mod m{id} {{ use super::prelude::*; pub fn f() {{ {} }} }}\n", self.body(bad))
    }

    fn family(&self) -> &'static str {
        match self {
            Case::Escape { owner: Owner::View, .. } => "reached through a view",
            Case::Escape { .. } => "reached through a handle",
            Case::Pin { .. } => "moved after registration",
            Case::Bound { .. } => "not to be shared",
            Case::Take { .. } => "taken, changed or borrowed",
            Case::Provide { .. } => "provided",
        }
    }
}

/// What every program may use.
const PRELUDE: &str = r#"
pub use metriken::*;
pub use std::cell::{Cell, RefCell};
pub use std::pin::Pin;
pub use std::rc::Rc;
pub use std::sync::atomic::AtomicU64;
pub use std::sync::{Arc, Mutex};
pub fn sink<T: ?Sized>(_: &T) {}
pub fn forever<T: 'static>(_: T) {}
pub fn is_sync<T: Sync + ?Sized>(_: &T) {}
pub fn is_send<T: Send + ?Sized>(_: &T) {}
pub fn is_unpin<T: Unpin + ?Sized>(_: &T) {}
pub fn lazy<T, F: FnOnce() -> T>(f: F) -> Lazy<T, F> { Lazy::new(f) }
pub fn is_metric<T: Metric>(_: &T) {}
pub static LOCK: std::sync::RwLock<u64> = std::sync::RwLock::new(1);
pub struct Own(pub u64, pub String);
impl Own { pub fn text(&self) -> &str { &self.1 } }
impl Metric for Own {
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn value(&self) -> Option<Value<'_>> { Some(Value::Other(&self.1)) }
    fn provide<'a>(&'a self, request: &mut metriken_core::Request<'a>) { request.provide_ref::<str>(&self.1); }
}
pub struct Generic<T>(pub T);
impl<T: Send + Sync + 'static> Metric for Generic<T> {
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(&self.0) }
    fn value(&self) -> Option<Value<'_>> { Some(Value::Other(&self.0)) }
}
pub struct Holder<M: Metric> { pub m: DynPinnedMetric<M> }
pub struct Injected;
impl metriken_core::export::InjectedProvider for Injected { fn provide(_: &mut metriken_core::Request<'_>) {} }
"#;

fn case() -> impl Strategy<Value = Case> {
    let owner = prop_oneof![
        12 => Just(Owner::View),
        2 => Just(Owner::Boxed),
        1 => Just(Owner::Pinned),
        1 => Just(Owner::PinBox),
        2 => Just(Owner::Lazy),
        1 => Just(Owner::LazyBoxed),
        2 => Just(Owner::Own),
        1 => Just(Owner::Metadata),
    ];
    let route = prop::sample::select(vec![Route::Block, Route::DropFirst, Route::Return, Route::Closure, Route::Static, Route::Thread, Route::Outer, Route::Reassign, Route::Move, Route::Temporary]);
    let wrap = prop_oneof![4 => Just(Wrap::Plain), 1 => Just(Wrap::Some), 1 => Just(Wrap::Tuple), 1 => Just(Wrap::Vec), 1 => Just(Wrap::Boxed), 1 => Just(Wrap::Closure)];
    prop_oneof![
        12 => (owner, any::<u8>(), any::<u8>(), route, wrap).prop_map(|(owner, step, reach, route, wrap)| {
            let sharable = match owner {
                Owner::View => REACH.get(reach as usize % (REACH.len() + 2)).map(|r| r.1).unwrap_or(true),
                o => owner_reach(o)[reach as usize % owner_reach(o).len()].1,
            };
            let route = if route == Route::Thread && !sharable { Route::DropFirst } else { route };
            Case::Escape { owner, step, reach, route, wrap }
        }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(metric, how)| Case::Pin { metric, how }),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(place, what)| Case::Bound { place, what }),
        4 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(metric, step, how)| Case::Take { metric, step, how }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(how, what)| Case::Provide { how, what }),
    ]
}

/// Compiles the programs; the errors of each, and of none of them.
fn check(ctx: &Ctx, name: &str, sources: &[String]) -> (bool, Vec<Vec<String>>, String) {
    let p = Project::new(ctx, name);
    p.write("Cargo.toml", &format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nmetriken = {{ path = \"{0}/metriken\" }}\nmetriken-core = {{ path = \"{0}/metriken-core\" }}\n[profile.dev]\ndebug = 0\nincremental = false\n[workspace]\n", repo().display()));
    p.write("src/lib.rs", &format!("{}pub mod prelude {{{PRELUDE}}}\n", sources.concat()));
    let b = p.cargo(&["check"]);
    let mut out = vec![vec![]; sources.len()];
    let mut elsewhere = b.stderr.clone();
    for e in &b.errors {
        let mut placed = false;
        if e.target == name && e.file.ends_with("src/lib.rs") {
            for l in &e.lines {
                if l.0 >= 1 && l.0 <= sources.len() {
                    out[l.0 - 1].push(e.message.clone());
                    placed = true;
                }
            }
        }
        if !placed && !e.lines.is_empty() {
            elsewhere.push_str(&e.rendered);
        }
    }
    (b.ok, out, elsewhere)
}

/// One program by itself, and its proper counterpart.
fn alone(ctx: &Ctx, c: &Case) -> CaseResult {
    let (ok, _, _) = check(ctx, "proper", &[c.source(0, false)]);
    if !ok {
        // not a matter of the offence
        return Ok(());
    }
    let (ok, _, _) = check(ctx, "offending", &[c.source(0, true)]);
    if ok {
        return Err(format!("this compiles without `unsafe` ({}): {}", c.family(), c.body(true)));
    }
    Ok(())
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule("programs without `unsafe` that are proper but for one offence: something reached through a view or a handle (an entry taken in one of 24 ways; its name, description, metadata, metric, value, attached data, the iterators) gets, wrapped or not, to where the view or handle is dropped, moved or replaced; a pinned metric is registered without being pinned or moved after it; metrics, attached data and initialisers that may not be shared or kept are handed over; an entry is copied, moved out or made up; a registered metric is changed through its handle; a reference to what is gone is provided. The compiler must reject each, while the same program without the offence compiles. Non-trivial: the counterpart compiles, so that the offence is the only reason");
    ctx.assume("the compiler is the one installed, its rules for borrowing, sharing and pinning are the oracle; only the programs' acceptance is judged, they are not run");
    if !ctx.wants("programs") {
        return;
    }
    if let Some(c) = ctx.replay_case("programs") {
        let case: Case = serde_json::from_value(c.clone()).expect("case");
        match alone(ctx, &case) {
            Err(m) => ctx.violation("programs", c, &m),
            Ok(()) => eprintln!("[C27/programs] the replayed case holds"),
        }
        return;
    }
    let t = std::time::Instant::now();
    let trees = ctx.generate("programs", ctx.cases(6000, 8), case());
    let cases: Vec<Case> = trees.iter().map(|t| t.current()).collect();
    let good: Vec<String> = cases.iter().enumerate().map(|(i, c)| c.source(i, false)).collect();
    let mut usable = vec![true; cases.len()];
    // errors of later stages of the compiler do not show next to those of
    // earlier ones: repeat without the rejected ones
    for round in 0.. {
        let left: Vec<usize> = (0..cases.len()).filter(|i| usable[*i]).collect();
        let (ok, errors, other) = check(ctx, "proper", &left.iter().map(|i| good[*i].clone()).collect::<Vec<_>>());
        if ok {
            break;
        }
        if errors.iter().all(|e| e.is_empty()) || round > 8 {
            eprintln!("the proper programs do not build: {other}");
            std::process::exit(2);
        }
        for (k, i) in left.iter().enumerate() {
            if !errors[k].is_empty() {
                usable[*i] = false;
                if std::env::var_os("VERIF_SHOW").is_some() {
                    eprintln!("unusable: {:?}: {}\n{}", cases[*i], good[*i], errors[k].join("\n"));
                }
            }
        }
    }
    ctx.note("counterparts_not_compiling", usable.iter().filter(|u| !**u).count());
    for (i, c) in cases.iter().enumerate() {
        let mut o = Obs::default();
        o.nontrivial(usable[i]);
        o.label(c.family());
        ctx.record("programs", c, o);
    }
    let mut left: Vec<usize> = (0..cases.len()).filter(|i| usable[*i]).collect();
    let mut accepted = None;
    for _ in 0..8 {
        let (ok, errors, _) = check(ctx, "offending", &left.iter().map(|i| cases[*i].source(*i, true)).collect::<Vec<_>>());
        if std::env::var_os("VERIF_SHOW").is_some() {
            for (k, i) in left.iter().enumerate() {
                eprintln!("rejected: {:?}: {}\n=> {:?}", cases[*i], cases[*i].body(true), errors[k]);
            }
        }
        let before = left.len();
        left = left.iter().enumerate().filter(|(k, _)| errors[*k].is_empty()).map(|(_, i)| *i).collect();
        if ok || left.len() == before || left.is_empty() {
            break;
        }
    }
    for i in left {
        if let Err(m) = alone(ctx, &cases[i]) {
            accepted = Some((i, m));
            break;
        }
    }
    if let Some((i, m)) = accepted {
        let (c, m) = shrink(ctx, trees.into_iter().nth(i).unwrap(), m);
        ctx.violation("programs", serde_json::to_value(&c).unwrap(), &m);
    }
    eprintln!("[C27/programs] {} programs in {:.1}s", cases.len(), t.elapsed().as_secs_f64());
}

fn shrink(ctx: &Ctx, mut tree: Box<dyn ValueTree<Value = Case>>, mut msg: String) -> (Case, String) {
    let mut best = tree.current();
    for _ in 0..24 {
        if !tree.simplify() {
            break;
        }
        let c = tree.current();
        match alone(ctx, &c) {
            Err(m) => {
                best = c;
                msg = m;
            }
            Ok(()) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    (best, msg)
}
