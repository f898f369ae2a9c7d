//! C08: typed context requests, against a model of "first match wins".
use std::any::Any;
use std::sync::Mutex;

use metriken::*;
use metriken_core::{request_ref, request_value, Request};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure_eq, CaseResult, Ctx, Obs};

/// Types of data; all data carry a number so that they can be told apart.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ty {
    U32,
    NewU32,
    I32,
    Text,
    StaticStr,
    Bytes,
    Boxed,
    // only by reference
    Str,
    Slice,
    Dyn,
}
const TYS: [Ty; 10] = [Ty::U32, Ty::NewU32, Ty::I32, Ty::Text, Ty::StaticStr, Ty::Bytes, Ty::Boxed, Ty::Str, Ty::Slice, Ty::Dyn];
impl Ty {
    fn sized(self) -> bool {
        !matches!(self, Ty::Str | Ty::Slice | Ty::Dyn)
    }
}

#[derive(Clone, Debug, PartialEq)]
struct NewU32(u32);
trait Tagged: Send + Sync {
    fn id(&self) -> u32;
}
impl Tagged for NewU32 {
    fn id(&self) -> u32 {
        self.0
    }
}

/// The strings with 'static lifetime.
static NAMES: [&str; 32] = [
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22",
    "23", "24", "25", "26", "27", "28", "29", "30", "31",
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Mode {
    Value,
    ValueWith,
    Ref,
    RefWith,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    mode: Mode,
    ty: Ty,
}

impl Step {
    fn by_ref(&self) -> bool {
        matches!(self.mode, Mode::Ref | Mode::RefWith)
    }
    fn lazy(&self) -> bool {
        matches!(self.mode, Mode::ValueWith | Mode::RefWith)
    }
}

/// One of each type, all standing for the number `n`.
struct Datum {
    u: u32,
    n: NewU32,
    i: i32,
    t: String,
    s: &'static str,
    b: Vec<u8>,
    x: Box<u32>,
}
impl Datum {
    fn new(n: u32) -> Self {
        Datum { u: n, n: NewU32(n), i: n as i32, t: n.to_string(), s: NAMES[n as usize], b: vec![n as u8; 3], x: Box::new(n) }
    }
}

#[derive(Default)]
struct Log {
    /// per step, before it runs: which requests it would satisfy
    sat: Vec<Vec<(bool, Ty)>>,
    ran: Vec<usize>,
}

struct Planned {
    steps: Vec<Step>,
    data: Vec<Datum>,
    log: Mutex<Log>,
}

impl Planned {
    fn new(steps: &[Step], base: u32) -> Self {
        Planned {
            steps: steps.to_vec(),
            data: (0..steps.len()).map(|i| Datum::new(base + i as u32)).collect(),
            log: Mutex::default(),
        }
    }
}

fn sat(r: &Request<'_>) -> Vec<(bool, Ty)> {
    let mut v = vec![];
    for ty in TYS {
        let val = match ty {
            Ty::U32 => r.would_be_satisfied_by_value_of::<u32>(),
            Ty::NewU32 => r.would_be_satisfied_by_value_of::<NewU32>(),
            Ty::I32 => r.would_be_satisfied_by_value_of::<i32>(),
            Ty::Text => r.would_be_satisfied_by_value_of::<String>(),
            Ty::StaticStr => r.would_be_satisfied_by_value_of::<&'static str>(),
            Ty::Bytes => r.would_be_satisfied_by_value_of::<Vec<u8>>(),
            Ty::Boxed => r.would_be_satisfied_by_value_of::<Box<u32>>(),
            _ => false,
        };
        let by_ref = match ty {
            Ty::U32 => r.would_be_satisfied_by_ref_of::<u32>(),
            Ty::NewU32 => r.would_be_satisfied_by_ref_of::<NewU32>(),
            Ty::I32 => r.would_be_satisfied_by_ref_of::<i32>(),
            Ty::Text => r.would_be_satisfied_by_ref_of::<String>(),
            Ty::StaticStr => r.would_be_satisfied_by_ref_of::<&'static str>(),
            Ty::Bytes => r.would_be_satisfied_by_ref_of::<Vec<u8>>(),
            Ty::Boxed => r.would_be_satisfied_by_ref_of::<Box<u32>>(),
            Ty::Str => r.would_be_satisfied_by_ref_of::<str>(),
            Ty::Slice => r.would_be_satisfied_by_ref_of::<[u8]>(),
            Ty::Dyn => r.would_be_satisfied_by_ref_of::<dyn Tagged>(),
        };
        if val {
            v.push((false, ty));
        }
        if by_ref {
            v.push((true, ty));
        }
    }
    v
}

impl Metric for Planned {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        for (i, s) in self.steps.iter().enumerate() {
            let q = sat(r);
            self.log.lock().unwrap().sat.push(q);
            let d = &self.data[i];
            macro_rules! val {
                ($e:expr) => {{
                    if s.lazy() {
                        r.provide_value_with(|| {
                            self.log.lock().unwrap().ran.push(i);
                            $e
                        })
                    } else {
                        r.provide_value($e)
                    };
                }};
            }
            macro_rules! refer {
                ($t:ty, $e:expr) => {{
                    if s.lazy() {
                        r.provide_ref_with::<$t>(|| {
                            self.log.lock().unwrap().ran.push(i);
                            $e
                        })
                    } else {
                        r.provide_ref::<$t>($e)
                    };
                }};
            }
            match (s.by_ref(), s.ty) {
                (false, Ty::U32) => val!(d.u),
                (false, Ty::NewU32) => val!(d.n.clone()),
                (false, Ty::I32) => val!(d.i),
                (false, Ty::Text) => val!(d.t.clone()),
                (false, Ty::StaticStr) => val!(d.s),
                (false, Ty::Bytes) => val!(d.b.clone()),
                (false, Ty::Boxed) => val!(d.x.clone()),
                (true, Ty::U32) => refer!(u32, &d.u),
                (true, Ty::NewU32) => refer!(NewU32, &d.n),
                (true, Ty::I32) => refer!(i32, &d.i),
                (true, Ty::Text) => refer!(String, &d.t),
                (true, Ty::StaticStr) => refer!(&'static str, &d.s),
                (true, Ty::Bytes) => refer!(Vec<u8>, &d.b),
                (true, Ty::Boxed) => refer!(Box<u32>, &d.x),
                (true, Ty::Str) => refer!(str, &d.t[..]),
                (true, Ty::Slice) => refer!([u8], &d.b[..]),
                (true, Ty::Dyn) => refer!(dyn Tagged, &d.n),
                (false, _) => unreachable!(),
            }
        }
    }
}

trait Source {
    fn value<T: 'static>(&self) -> Option<T>;
    fn refer<T: ?Sized + 'static>(&self) -> Option<&T>;
}
impl Source for Planned {
    fn value<T: 'static>(&self) -> Option<T> {
        request_value(self)
    }
    fn refer<T: ?Sized + 'static>(&self) -> Option<&T> {
        request_ref(self)
    }
}
impl Source for MetricEntry {
    fn value<T: 'static>(&self) -> Option<T> {
        self.request_value()
    }
    fn refer<T: ?Sized + 'static>(&self) -> Option<&T> {
        self.request_ref()
    }
}

/// The number of the datum returned.
fn ask(s: &impl Source, by_ref: bool, ty: Ty) -> Option<u32> {
    match (by_ref, ty) {
        (false, Ty::U32) => s.value::<u32>(),
        (false, Ty::NewU32) => s.value::<NewU32>().map(|v| v.0),
        (false, Ty::I32) => s.value::<i32>().map(|v| v as u32),
        (false, Ty::Text) => s.value::<String>().map(|v| v.parse().unwrap()),
        (false, Ty::StaticStr) => s.value::<&'static str>().map(|v| v.parse().unwrap()),
        (false, Ty::Bytes) => s.value::<Vec<u8>>().map(|v| v[2] as u32),
        (false, Ty::Boxed) => s.value::<Box<u32>>().map(|v| *v),
        (true, Ty::U32) => s.refer::<u32>().copied(),
        (true, Ty::NewU32) => s.refer::<NewU32>().map(|v| v.0),
        (true, Ty::I32) => s.refer::<i32>().map(|v| *v as u32),
        (true, Ty::Text) => s.refer::<String>().map(|v| v.parse().unwrap()),
        (true, Ty::StaticStr) => s.refer::<&'static str>().map(|v| v.parse().unwrap()),
        (true, Ty::Bytes) => s.refer::<Vec<u8>>().map(|v| v[1] as u32),
        (true, Ty::Boxed) => s.refer::<Box<u32>>().map(|v| **v),
        (true, Ty::Str) => s.refer::<str>().map(|v| v.parse().unwrap()),
        (true, Ty::Slice) => s.refer::<[u8]>().map(|v| v[0] as u32),
        (true, Ty::Dyn) => s.refer::<dyn Tagged>().map(|v| v.id()),
        (false, _) => None,
    }
}

fn check_source(src: &impl Source, p: &Planned, attached: &[(Ty, u32)], base: u32, obs: &mut Obs) -> CaseResult {
    for ty in TYS {
        for by_ref in [false, true] {
            if !by_ref && !ty.sized() {
                continue;
            }
            *p.log.lock().unwrap() = Log::default();
            let got = ask(src, by_ref, ty);
            let from_builder = attached.iter().rev().find(|(t, _)| by_ref && *t == ty).map(|(_, n)| *n);
            let first = p.steps.iter().position(|s| s.ty == ty && s.by_ref() == by_ref);
            let want = from_builder.or(first.map(|i| base + i as u32));
            ensure_eq!(got, want, "request of {ty:?} {}", if by_ref { "by reference" } else { "by value" });
            let log = p.log.lock().unwrap();
            // the metric may be asked even if the builder's data already answered
            if from_builder.is_none() {
                ensure_eq!(log.sat.len(), p.steps.len(), "provide steps run for {ty:?}");
            }
            for (i, got) in log.sat.iter().enumerate() {
                let open = from_builder.is_none() && first.map_or(true, |f| f >= i);
                let want = if open { vec![(by_ref, ty)] } else { vec![] };
                ensure_eq!(got, &want, "kinds (by ref, type) that would satisfy the request of ({by_ref}, {ty:?}) before step {i}");
            }
            let want_ran: Vec<usize> = first.filter(|i| from_builder.is_none() && p.steps[*i].lazy()).into_iter().collect();
            ensure_eq!(log.ran, want_ran, "closures run for the request of {ty:?}");
            let dup = p.steps.iter().filter(|s| s.ty == ty && s.by_ref() == by_ref).count();
            obs.nontrivial(dup > 1 || (from_builder.is_some() && first.is_some()));
            obs.label_if(dup > 1, "several data of the requested kind");
            obs.label_if(want.is_none(), "nothing provided");
            obs.label_if(from_builder.is_some() && first.is_some(), "builder data precede the metric's");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    steps: Vec<Step>,
    attached: Vec<Ty>,
    pinned: bool,
}

fn ty(sized: bool) -> impl Strategy<Value = Ty> {
    (0usize..if sized { 7 } else { 10 }).prop_map(|i| TYS[i])
}

fn step() -> impl Strategy<Value = Step> {
    prop_oneof![
        (ty(true), any::<bool>()).prop_map(|(ty, l)| Step { mode: if l { Mode::ValueWith } else { Mode::Value }, ty }),
        (ty(false), any::<bool>()).prop_map(|(ty, l)| Step { mode: if l { Mode::RefWith } else { Mode::Ref }, ty }),
    ]
}

/// A static metric with data of its own.
pub struct Fixed {
    pub text: &'static str,
    pub bytes: [u8; 3],
}
impl Metric for Fixed {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        r.provide_ref::<str>(self.text).provide_value(17u32).provide_value(18u32).provide_ref::<[u8]>(&self.bytes);
        r.provide_ref::<[u8]>(&[9]);
    }
}
#[metric(name = "st.provides", metadata = { k = "v" })]
pub static PROVIDES: Fixed = Fixed { text: "fixed", bytes: [1, 2, 3] };

/// Many types that differ only in a number.
struct Kind<const N: usize>(u32);
type Attach = fn(MetricBuilder, u32) -> MetricBuilder;
/// By reference, and whether there is one by value.
type Lookup = fn(&MetricEntry) -> (Option<u32>, bool);
macro_rules! kinds {
    ($($n:literal)*) => {
        [$((
            |b, v| b.provide(Kind::<$n>(v)),
            |e| (e.request_ref::<Kind<$n>>().map(|k| k.0), e.request_value::<Kind<$n>>().is_some()),
        )),*]
    };
}
static KINDS: [(Attach, Lookup); 48] = kinds!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47);

/// Data of up to 48 types attached to each of several metrics.
fn crowd(c: &Vec<Vec<(usize, u32)>>, obs: &mut Obs) -> CaseResult {
    let mut hold = vec![];
    for (i, list) in c.iter().enumerate() {
        let mut b = MetricBuilder::new("crowd").metadata("i", i.to_string());
        for (k, v) in list {
            b = KINDS[*k].0(b, *v);
        }
        hold.push(b.build(Counter::new()));
        obs.nontrivial(list.len() > 10);
    }
    let view = metrics();
    let mut n = 0;
    for e in view.dynamic_metrics() {
        let i: usize = e.metadata().get("i").and_then(|i| i.parse().ok()).ok_or("metadata beside the data")?;
        for (k, (_, ask)) in KINDS.iter().enumerate() {
            let want = c[i].iter().rev().find(|(j, _)| *j == k).map(|(_, v)| *v);
            ensure_eq!(ask(e), (want, false), "datum of type {k} (by reference; is there one by value) of {} attached to metric {i}", c[i].len());
        }
        n += 1;
    }
    ensure_eq!(n, c.len(), "metrics listed");
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule("Metrics whose provide runs 0-10 generated steps (value, reference, eager or by closure, of 10 sized and unsized types that differ only in type) and 0-5 data attached by the builder; all 17 requests are made directly, through a dynamic entry, and compared with 'first match of exactly that type and mode, builder data first'; before each step the would-be-satisfied answers for all kinds and afterwards the closures run are compared too; (crowd) up to 60 data of 48 types attached to 1-3 metrics. Non-trivial: several data compete for one request.");
    let case = || {
        (
            prop_oneof![15 => proptest::collection::vec(step(), 0..10), 1 => proptest::collection::vec(step(), 10..=20)],
            proptest::collection::vec(ty(true), 0..5),
            any::<bool>(),
        )
            .prop_map(|(steps, attached, pinned)| Case { steps, attached, pinned })
    };
    ctx.check_par("direct", ctx.cases(600_000, 12), case, |c: &Case, obs| {
        let p = Planned::new(&c.steps, 0);
        check_source(&p, &p, &[], 0, obs)
    });
    ctx.check(
        "crowd",
        ctx.cases(40_000, 12),
        proptest::collection::vec(proptest::collection::vec((0usize..48, any::<u32>()), 0..60), 1..=3),
        crowd,
    );
    ctx.check("dynamic", ctx.cases(200_000, 12), case(), |c, obs| {
        let mut b = MetricBuilder::new("provides").metadata("a", "b");
        let mut attached = vec![];
        for (k, ty) in c.attached.iter().enumerate() {
            let n = 20 + k as u32;
            let d = Datum::new(n);
            attached.push((*ty, n));
            b = match ty {
                Ty::U32 => b.provide(d.u),
                Ty::NewU32 => b.provide(d.n),
                Ty::I32 => b.provide(d.i),
                Ty::Text => b.provide(d.t),
                Ty::StaticStr => b.provide(d.s),
                Ty::Bytes => b.provide(d.b),
                Ty::Boxed => b.provide(d.x),
                _ => unreachable!(),
            };
        }
        let p = Planned::new(&c.steps, 0);
        fn look(attached: &[(Ty, u32)], obs: &mut Obs) -> CaseResult {
            let view = metrics();
            let e = view.dynamic_metrics().next().ok_or("not listed")?;
            let p = e.as_any().and_then(|a| a.downcast_ref::<Planned>()).ok_or("as_any of the entry")?;
            check_source(e, p, attached, 0, obs)?;
            ensure_eq!(e.metadata().get("a"), Some("b"), "metadata beside the data");
            ensure_eq!(e.request_ref::<u64>(), None, "u64, which nobody provides");
            ensure_eq!(e.request_value::<u64>(), None, "u64, which nobody provides");
            // the metric alone does not have the builder's data
            check_source(p, p, &[], 0, obs)
        }
        let r = if c.pinned {
            let (m, e) = b.build_pinned(p);
            let m = Box::pin(m);
            m.as_ref().register(e);
            look(&attached, obs)
        } else {
            let _m = b.build(p);
            look(&attached, obs)
        };
        r?;
        let view = metrics();
        let e = view.static_metrics().iter().find(|e| e.name() == "st.provides").ok_or("static not listed")?;
        ensure_eq!(e.request_ref::<str>(), Some("fixed"), "str of the static metric");
        ensure_eq!(e.request_value::<u32>(), Some(17), "u32 of the static metric");
        ensure_eq!(e.request_ref::<u32>(), None, "u32 by reference of the static metric");
        ensure_eq!(e.request_ref::<[u8]>(), Some(&[1u8, 2, 3][..]), "bytes of the static metric");
        ensure_eq!(e.request_value::<String>(), None, "String of the static metric");
        ensure_eq!(e.metadata().get("k"), Some("v"), "metadata of the static metric");
        Ok(())
    });
}
