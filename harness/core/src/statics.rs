//! Statically declared metrics of this binary and what is expected of them.
//! (Static declarations in all their variety are generated by the C10 check.)
use std::collections::BTreeMap;

use metriken::*;

use crate::util::{Owner, Wide, Zst};

pub fn shout(e: &MetricEntry, f: Format) -> String {
    let f = match f {
        Format::Simple => "S",
        Format::Prometheus => "P",
        _ => "?",
    };
    format!("!{}!{}!{}", e.name(), f, e.metadata().len())
}

#[metric]
pub static PLAIN: Counter = Counter::new();
#[metric(name = "named.gauge", description = "a gauge")]
pub static GAUGE: Gauge = Gauge::new();
#[metric(name = "md", metadata = { a = "1", "b.c" = "two", zz = "q\"uote\\back\nnl" })]
pub static WITH_MD: Counter = Counter::new();
#[metric(name = "fmt", metadata = { a = "1" }, formatter = shout)]
pub static FMT: Counter = Counter::new();
#[metric(name = "lazy")]
pub static LAZY: LazyCounter = LazyCounter::new(Counter::default);
#[metric(name = "lazyforced")]
pub static LAZYFORCED: LazyGauge = LazyGauge::new(|| Gauge::with_value(-5));
#[metric(name = "hist", description = "")]
pub static HIST: AtomicHistogram = AtomicHistogram::new(2, 10);
#[metric(name = "rw")]
pub static RW: RwLockHistogram = RwLockHistogram::new(2, 10);
#[metric(name = "zst")]
pub static ZST: Zst = Zst;
#[metric(name = "wide")]
pub static WIDE: Wide = Wide::new();
#[metric(name = "plain")]
pub static SAME_NAME_A: Counter = Counter::new();
#[metric(name = "plain")]
pub static SAME_NAME_B: Counter = Counter::new();

#[metric(name = "many", metadata = { k00 = "v0", k01 = "v1", k02 = "v2", k03 = "v3", k04 = "v4", k05 = "v5", k06 = "v6", k07 = "v7", k08 = "v8", k09 = "v9", k10 = "v10", k11 = "v11", k12 = "v12", k13 = "v13", k14 = "v14", k15 = "v15", k16 = "v16", "" = "empty key", empty = "" })]
pub static MANY: Gauge = Gauge::new();

#[metric(name = "owner", metadata = { a = "declared" })]
pub static OWNER: Owner = Owner(Counter::new());
#[metric(name = "owner.bare")]
pub static OWNER_BARE: Owner = Owner(Counter::new());

pub const COUNT: usize = 20 + crate::lazycheck::POOL; // 15 here, 4 in fmtcheck.rs, 1 in provide.rs, the pool in lazycheck.rs

pub fn many_expected() -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = (0..17).map(|i| (format!("k{i:02}"), format!("v{i}"))).collect();
    m.insert(String::new(), "empty key".into());
    m.insert("empty".into(), String::new());
    m
}

pub type Expected = (&'static str, Option<&'static str>, BTreeMap<String, String>);

pub fn expected() -> Vec<Expected> {
    let md = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let mut v = vec![
        ("PLAIN", None, md(&[])),
        ("named.gauge", Some("a gauge"), md(&[])),
        ("md", None, md(&[("a", "1"), ("b.c", "two"), ("zz", "q\"uote\\back\nnl")])),
        ("fmt", None, md(&[("a", "1")])),
        ("lazy", None, md(&[])),
        ("lazyforced", None, md(&[])),
        ("hist", Some(""), md(&[])),
        ("rw", None, md(&[])),
        ("many", None, many_expected()),
        ("st.provides", None, md(&[("k", "v")])),
        ("st.f0", None, md(&[])),
        ("st.f1", None, md(&[("a", "x"), ("b", "y\"z")])),
        ("st.f2", None, md(&[])),
        ("st.none", None, md(&[("device", "C:\\dir\n\"q\""), ("mode", "{a=\"b\",c}"), ("empty", "")])),
        ("owner", None, md(&[("a", "declared")])),
        ("owner.bare", None, md(&[])),
        ("zst", None, md(&[])),
        ("wide", None, md(&[])),
        ("plain", None, md(&[])),
        ("plain", None, md(&[])),
    ];
    v.extend(crate::lazycheck::pool_names().into_iter().map(|n| (n, None, md(&[]))));
    v.sort();
    v
}

/// The static part of the listing is exactly what is declared above.
pub fn check_statics(list: &[MetricEntry]) -> Result<(), String> {
    let mut got: Vec<(String, Option<String>, BTreeMap<String, String>)> = list
        .iter()
        .map(|e| {
            let s = crate::util::seen(e);
            (s.name, s.description, s.metadata)
        })
        .collect();
    for e in list {
        let s = crate::util::seen(e);
        // what is not lazy is enabled; the lazy ones show their cell
        let (on, lazy) = match e.name() {
            // never has anything to show
            "zst" => (false, true),
            "lazy" => (Lazy::get(&LAZY).is_some(), true),
            "lazyforced" => (Lazy::get(&LAZYFORCED).is_some(), true),
            "st.f2" => (Lazy::get(&crate::fmtcheck::ST2).is_some(), true),
            n => match crate::lazycheck::pool_state(n) {
                Some(on) => (on, true),
                None => (true, false),
            },
        };
        if s.enabled != on {
            return Err(format!("static {:?} is listed as enabled = {}", s.name, s.enabled));
        }
        if lazy && (s.reading != crate::util::Reading::Nothing, e.as_any().is_some()) != (on, on) {
            return Err(format!("static {:?} (initialised: {on}) is listed with {:?}", s.name, s.reading));
        }
    }
    got.sort();
    let want: Vec<_> = expected()
        .into_iter()
        .map(|(n, d, m)| (n.to_string(), d.map(|s| s.to_string()), m))
        .collect();
    if got != want {
        return Err(format!("static listing is {got:?}, expected {want:?}"));
    }
    Ok(())
}
