use std::any::Any;
use std::collections::BTreeMap;

use metriken::{Metric, MetricBuilder, MetricEntry, Value};

/// What a metric currently reports, in comparable form.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Reading {
    Nothing,
    Counter(u64),
    Gauge(i64),
    /// a histogram with nothing to load
    Empty,
    /// a histogram holding this many events
    Total(u64),
    Other,
}

pub fn reading(m: &(impl Metric + ?Sized)) -> Reading {
    match m.value() {
        None => Reading::Nothing,
        Some(Value::Counter(v)) => Reading::Counter(v),
        Some(Value::Gauge(v)) => Reading::Gauge(v),
        Some(Value::Other(a)) => {
            let h = if let Some(h) = a.downcast_ref::<metriken::AtomicHistogram>() {
                h.load()
            } else if let Some(h) = a.downcast_ref::<metriken::RwLockHistogram>() {
                h.load()
            } else {
                return Reading::Other;
            };
            h.map_or(Reading::Empty, |h| Reading::Total(h.as_slice().iter().sum()))
        }
        Some(_) => Reading::Other,
    }
}

/// Everything observable about an entry.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Seen {
    pub name: String,
    pub description: Option<String>,
    pub metadata: BTreeMap<String, String>,
    pub enabled: bool,
    pub reading: Reading,
}

pub fn seen(e: &MetricEntry) -> Seen {
    Seen {
        name: e.name().to_string(),
        description: e.description().map(|s| s.to_string()),
        metadata: e
            .metadata()
            .iter()
            .map(|(k, v)| (k.to_string(), v.to_string()))
            .collect(),
        enabled: e.is_enabled(),
        reading: reading(e.metric()),
    }
}

pub fn addr(e: &MetricEntry) -> usize {
    e.metric() as *const dyn Metric as *const () as usize
}

pub fn builder(name: &str, desc: &Option<String>, md: &[(String, String)]) -> MetricBuilder {
    let mut b = MetricBuilder::new(name.to_string());
    if let Some(d) = desc {
        b = b.description(d.clone());
    }
    for (k, v) in md {
        b = b.metadata(k.clone(), v.clone());
    }
    b
}

/// The map a list of pairs stands for: the last value per key.
pub fn last_wins(md: &[(String, String)]) -> BTreeMap<String, String> {
    md.iter().cloned().collect()
}

/// A zero-sized metric that never reports anything.
pub struct Zst;
impl Metric for Zst {
    fn as_any(&self) -> Option<&dyn Any> {
        None
    }
    fn value(&self) -> Option<Value<'_>> {
        None
    }
}

/// A metric whose value is not a counter or gauge, of odd size and alignment.
#[repr(C, align(32))]
pub struct Wide {
    pub first: metriken::Counter,
    pub second: metriken::Counter,
    pub pad: [u8; 40],
}
impl Wide {
    pub const fn new() -> Self {
        Wide { first: metriken::Counter::new(), second: metriken::Counter::new(), pad: [0; 40] }
    }
}
impl Metric for Wide {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Some(Value::Other(self))
    }
}

/// A metric type that offers metadata of its own. The ones given with the
/// declaration or to the builder come first.
pub struct Owner(pub metriken::Counter);
static OWN: std::sync::LazyLock<metriken::Metadata> =
    std::sync::LazyLock::new(|| std::collections::HashMap::from([("own".to_string(), "x".to_string()), ("a".to_string(), "own".to_string())]).into());
impl Metric for Owner {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value<'_>> {
        Metric::value(&self.0)
    }
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        r.provide_ref::<metriken::Metadata>(&OWN);
        r.provide_value(5u8);
    }
}
