//! C06: metadata against a string map.
use std::collections::{BTreeMap, HashMap};

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

use crate::statics;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Way {
    /// `MetricBuilder::metadata`, in the given order.
    Builder,
    /// As Builder, on a pinned metric.
    Pinned,
    /// As Builder, for a metric type that offers metadata of its own.
    Own,
    /// `Metadata::new` / `From` of a hash map.
    New,
    From,
    /// A clone of a dynamic one
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pairs: Vec<(String, String)>,
    probes: Vec<String>,
    steps: Vec<(bool, usize)>,
    end: u8,
    way: Way,
}

fn check_map(md: &Metadata, want: &BTreeMap<String, String>, c: &Case, obs: &mut Obs) -> CaseResult {
    ensure_eq!(md.len(), want.len(), "len");
    ensure_eq!(md.is_empty(), want.is_empty(), "is_empty");
    for (k, v) in want {
        ensure_eq!(md.get(k), Some(v.as_str()), "get({k:?})");
        ensure!(md.contains_key(k), "contains_key({k:?}) is false");
        // near misses
        for probe in [format!("{k} "), k.to_uppercase(), k.chars().skip(1).collect(), format!("{k}{k}")] {
            ensure_eq!(md.get(&probe), want.get(&probe).map(|s| s.as_str()), "get({probe:?})");
            ensure_eq!(md.contains_key(&probe), want.contains_key(&probe), "contains_key({probe:?})");
        }
    }
    for k in c.probes.iter().chain(want.values()) {
        ensure_eq!(md.get(k), want.get(k).map(|s| s.as_str()), "get({k:?})");
        ensure_eq!(md.contains_key(k), want.contains_key(k), "contains_key({k:?})");
        obs.label_if(!want.contains_key(k), "absent key");
    }
    let own = |(k, v): (&str, &str)| (k.to_string(), v.to_string());
    let full: Vec<(String, String)> = md.iter().map(own).collect();
    ensure_eq!(full.len(), want.len(), "number of pairs iterated");
    ensure_eq!(full.iter().cloned().collect::<BTreeMap<_, _>>(), want.clone(), "pairs iterated");
    let again: Vec<(String, String)> = {
        let mut v = vec![];
        for p in md {
            v.push(own(p));
        }
        v
    };
    ensure_eq!(again, full, "second iteration");
    // partially consumed iterators
    let mut it = md.iter();
    let mut pos = 0usize;
    let left = |pos: usize| full.len().saturating_sub(pos);
    for (nth, n) in &c.steps {
        ensure_eq!(it.len(), left(pos), "len of the iterator at {pos}");
        ensure_eq!(it.size_hint(), (left(pos), Some(left(pos))), "size_hint at {pos}");
        let (got, want) = if *nth {
            let w = full.get(pos.saturating_add(*n)).cloned();
            pos = (pos.saturating_add(*n).saturating_add(1)).min(full.len());
            (it.nth(*n), w)
        } else {
            let w = full.get(pos).cloned();
            pos = (pos + 1).min(full.len());
            (it.next(), w)
        };
        ensure_eq!(got.map(own), want, "pair at {pos}");
    }
    ensure_eq!(it.size_hint(), (left(pos), Some(left(pos))), "size_hint at {pos}");
    ensure_eq!(it.clone().map(own).collect::<Vec<_>>(), full[pos..].to_vec(), "clone of a partly used iterator");
    obs.nontrivial(pos > 0 && pos < full.len());
    match c.end {
        0 => ensure_eq!(it.count(), left(pos), "count at {pos}"),
        1 => {
            let got = it.fold(vec![], |mut v, p| {
                v.push(own(p));
                v
            });
            ensure_eq!(got, full[pos..].to_vec(), "fold at {pos}");
        }
        2 => ensure_eq!(it.last().map(own), full[pos..].last().cloned(), "last at {pos}"),
        3 => {
            for w in &full[pos..] {
                ensure_eq!(it.next().map(own), Some(w.clone()), "drain");
            }
            for _ in 0..3 {
                ensure_eq!(it.next().map(own), None, "next after exhaustion");
                ensure_eq!(it.nth(0).map(own), None, "nth after exhaustion");
                ensure_eq!(it.len(), 0, "len after exhaustion");
            }
        }
        _ => ensure_eq!(it.map(own).collect::<Vec<_>>(), full[pos..].to_vec(), "collect at {pos}"),
    }
    Ok(())
}

fn case() -> impl Strategy<Value = Case> {
    let key = || prop_oneof![3 => "[a-d]", 2 => gen::text(), 1 => "[a-z]{1,4}"];
    (
        prop_oneof![
            400 => proptest::collection::vec((key(), gen::text()), 0..6),
            100 => proptest::collection::vec((key(), gen::text()), 6..40),
            2 => proptest::collection::vec(("[a-z]{1,4}", "[a-z]{0,3}"), 40..1200),
            1 => proptest::collection::vec((key(), gen::long_text(70_000)), 1..4),
            1 => proptest::collection::vec((gen::long_text(70_000), key()), 1..4),
        ],
        proptest::collection::vec(key(), 0..4),
        proptest::collection::vec((any::<bool>(), prop_oneof![8 => 0usize..4, 1 => 4usize..50, 1 => Just(usize::MAX)]), 0..6),
        0u8..5,
        prop_oneof![4 => Just(Way::Builder), 1 => Just(Way::Pinned), 1 => Just(Way::Own), 1 => Just(Way::New), 1 => Just(Way::From), 1 => Just(Way::Clone)],
    )
        .prop_map(|(pairs, probes, steps, end, way)| Case { pairs, probes, steps, end, way })
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule("Generated key/value lists (repeated keys, empty and arbitrary unicode strings, mostly 0-40, at times up to 1200 pairs, strings up to 70 KB) given to a dynamic metric (also of a type that offers metadata of its own) or a Metadata directly, compared with the map of last values by get/contains_key/len/is_empty on present, near-miss and absent keys and by iterators driven by generated next/nth calls and ended by count/fold/last/collect/drain; the same driver runs over statically declared metadata. Non-trivial: an iterator was used up partly, in the middle.");
    ctx.check("dynamic", ctx.cases(60_000, 20), case(), |c, obs| {
        let want: BTreeMap<String, String> = c.pairs.iter().cloned().collect();
        obs.label_if(want.len() < c.pairs.len(), "repeated key");
        let hash: HashMap<String, String> = c.pairs.iter().cloned().collect();
        match c.way {
            Way::Builder => {
                let m = crate::util::builder("md-case", &None, &c.pairs).build(Counter::new());
                let view = metrics();
                let e = view.dynamic_metrics().next().ok_or("the metric is not listed")?;
                check_map(e.metadata(), &want, c, obs)?;
                drop(view);
                drop(m);
            }
            Way::Own => {
                let m = crate::util::builder("md-case", &None, &c.pairs).build(crate::util::Owner(Counter::new()));
                let view = metrics();
                let e = view.dynamic_metrics().next().ok_or("the metric is not listed")?;
                check_map(e.metadata(), &want, c, obs)?;
                ensure_eq!(e.request_value::<u8>(), Some(5), "what the metric provides itself");
                drop(view);
                drop(m);
            }
            Way::Pinned => {
                let (m, e) = crate::util::builder("md-case", &None, &c.pairs).build_pinned(Gauge::new());
                let m = Box::pin(m);
                m.as_ref().register(e);
                let view = metrics();
                let e = view.dynamic_metrics().next().ok_or("the metric is not listed")?;
                check_map(e.metadata(), &want, c, obs)?;
                drop(view);
                drop(m);
            }
            Way::New => check_map(&Metadata::new(hash), &want, c, obs)?,
            Way::From => check_map(&Metadata::from(hash), &want, c, obs)?,
            Way::Clone => check_map(&Metadata::new(hash).clone(), &want, c, obs)?,
        }
        Ok(())
    });
    ctx.check("static", ctx.cases(15_000, 20), case(), |c, obs| {
        let view = metrics();
        let mut some = 0;
        for e in view.static_metrics() {
            // the two statics called "plain" have equal (no) metadata
            let want = statics::expected().into_iter().find(|x| x.0 == e.name()).ok_or("unknown static")?.2;
            some += !want.is_empty() as usize;
            check_map(e.metadata(), &want, c, obs)?;
        }
        ensure_eq!(some, 7, "static metrics with metadata");
        check_map(&Metadata::default(), &BTreeMap::new(), c, obs)?;
        drop(view);
        // metrics made without metadata
        #[allow(deprecated)]
        let m = metriken::DynBoxedMetric::new(Counter::new(), MetricBuilder::new("x").metadata("a", "b").into_entry());
        {
            let view = metrics();
            let e = view.dynamic_metrics().next().ok_or("the metric is not listed")?;
            // made without a builder: documented to lose the metadata
            let n = e.metadata().len();
            ensure!(n <= 1, "metadata of a metric made without any has {n} pairs");
        }
        drop(m);
        Ok(())
    });
}
