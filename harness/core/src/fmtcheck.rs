//! C07: formatting.
use std::cell::RefCell;
use std::collections::BTreeMap;

use metriken::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

thread_local! {
    /// (which formatter, entry, format) of every formatter call.
    static CALLS: RefCell<Vec<(usize, usize, char)>> = const { RefCell::new(vec![]) };
}

fn log(k: usize, e: &MetricEntry, f: Format) -> char {
    let f = match f {
        Format::Simple => 'S',
        Format::Prometheus => 'P',
        _ => '?',
    };
    CALLS.with(|c| c.borrow_mut().push((k, e as *const MetricEntry as usize, f)));
    f
}
fn f0(e: &MetricEntry, f: Format) -> String {
    format!("zero:{}:{}", log(0, e, f), e.name())
}
fn f1(e: &MetricEntry, f: Format) -> String {
    // delegates for Prometheus, as a real formatter would
    match log(1, e, f) {
        'P' => default_formatter(e, Format::Prometheus),
        _ => format!("one/{}", e.metadata().get("a").unwrap_or("-")),
    }
}
fn f2(e: &MetricEntry, f: Format) -> String {
    log(2, e, f);
    String::new()
}

const FORMATTERS: [fn(&MetricEntry, Format) -> String; 3] = [f0, f1, f2];

#[metric(name = "st.f0", formatter = f0)]
static ST0: Counter = Counter::new();
#[metric(name = "st.f1", formatter = f1, metadata = { a = "x", b = "y\"z" })]
static ST1: Gauge = Gauge::new();
#[metric(name = "st.f2", formatter = f2)]
pub static ST2: LazyCounter = LazyCounter::new(Counter::default);
#[metric(name = "st.none", metadata = { device = "C:\\dir\n\"q\"", mode = "{a=\"b\",c}", empty = "" })]
static ST3: Counter = Counter::new();

/// Read `{label="value",...}` by the rules of the Prometheus text format.
pub fn parse_labels(s: &str) -> Result<BTreeMap<String, String>, String> {
    let mut it = s.chars().peekable();
    let mut out = BTreeMap::new();
    let ws = |it: &mut std::iter::Peekable<std::str::Chars>| {
        while matches!(it.peek(), Some(' ') | Some('\t')) {
            it.next();
        }
    };
    if it.next() != Some('{') {
        return Err(format!("no opening brace in {s:?}"));
    }
    loop {
        ws(&mut it);
        if it.peek() == Some(&'}') {
            it.next();
            break;
        }
        let mut key = String::new();
        while let Some(c) = it.peek() {
            if c.is_ascii_alphabetic() || *c == '_' || (!key.is_empty() && c.is_ascii_digit()) {
                key.push(*c);
                it.next();
            } else {
                break;
            }
        }
        if key.is_empty() {
            return Err(format!("no label name where one is due in {s:?}"));
        }
        ws(&mut it);
        if it.next() != Some('=') {
            return Err(format!("no '=' after label {key:?} in {s:?}"));
        }
        ws(&mut it);
        if it.next() != Some('"') {
            return Err(format!("value of {key:?} not quoted in {s:?}"));
        }
        let mut v = String::new();
        loop {
            match it.next() {
                None => return Err(format!("unterminated value of {key:?} in {s:?}")),
                Some('"') => break,
                Some('\n') => return Err(format!("raw newline in value of {key:?} in {s:?}")),
                Some('\\') => match it.next() {
                    Some('\\') => v.push('\\'),
                    Some('"') => v.push('"'),
                    Some('n') => v.push('\n'),
                    c => return Err(format!("bad escape {c:?} in value of {key:?} in {s:?}")),
                },
                Some(c) => v.push(c),
            }
        }
        if out.insert(key.clone(), v).is_some() {
            return Err(format!("label {key:?} twice in {s:?}"));
        }
        ws(&mut it);
        match it.next() {
            Some(',') => {}
            Some('}') => break,
            c => return Err(format!("{c:?} after label {key:?} in {s:?}")),
        }
    }
    if let Some(c) = it.next() {
        return Err(format!("{c:?} after the closing brace in {s:?}"));
    }
    Ok(out)
}

fn prometheus_ok(text: &str, name: &str, md: &BTreeMap<String, String>) -> CaseResult {
    let rest = text.strip_prefix(name).ok_or_else(|| format!("{text:?} does not start with the name {name:?}"))?;
    if md.is_empty() {
        ensure_eq!(rest, "", "labels of a metric without metadata");
        return Ok(());
    }
    let got = parse_labels(rest.trim_start_matches([' ', '\t']))?;
    ensure_eq!(got, md.clone(), "labels read back from {text:?}");
    Ok(())
}

fn entry_ok(e: &MetricEntry, fmt: Option<usize>, name: &str, md: &BTreeMap<String, String>) -> CaseResult {
    for f in ['S', 'P', 'S'] {
        CALLS.with(|c| c.borrow_mut().clear());
        let text = e.formatted(if f == 'S' { Format::Simple } else { Format::Prometheus });
        let calls = CALLS.with(|c| c.borrow().clone());
        match fmt {
            None => {
                ensure_eq!(calls, vec![], "formatters called for {name:?}, which has none");
                if f == 'S' {
                    ensure_eq!(text, name, "simple format");
                } else {
                    prometheus_ok(&text, name, md)?;
                }
            }
            Some(k) => {
                ensure_eq!(calls, vec![(k, e as *const MetricEntry as usize, f)], "formatter calls (formatter, entry, format) for {name:?}");
                match (k, f) {
                    (0, f) => ensure_eq!(text, format!("zero:{f}:{name}"), "custom format"),
                    (1, 'P') => prometheus_ok(&text, name, md)?,
                    (1, _) => ensure_eq!(text, format!("one/{}", md.get("a").map(|s| s.as_str()).unwrap_or("-")), "custom format"),
                    _ => ensure_eq!(text, "", "custom format"),
                }
            }
        }
    }
    // the default formatter itself is public
    ensure_eq!(default_formatter(e, Format::Simple), name, "default_formatter, simple");
    prometheus_ok(&default_formatter(e, Format::Prometheus), name, md)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    name: String,
    md: Vec<(String, String)>,
    formatters: Vec<usize>,
    pinned: bool,
    lazy: bool,
}

enum Hold {
    _B(DynBoxedMetric<Counter>),
    _L(DynBoxedMetric<LazyGauge>),
    _P(std::pin::Pin<Box<DynPinnedMetric<Counter>>>),
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule("1-4 dynamic metrics with generated names, label sets (label names from the Prometheus grammar, arbitrary values incl. quotes, backslashes, newlines, braces, control and unicode characters) and 0-3 attached formatters (last one wins), formatted in both formats alongside static metrics with and without formatters; the rendering is read back by an independent parser of the Prometheus label syntax and the formatter's calls are recorded. Non-trivial: a value needing escapes or containing separators, or a custom formatter.");
    ctx.assume("label names follow the Prometheus grammar; the default formatter passes names and keys through unchanged");
    let value = || prop_oneof![2 => gen::text(), 2 => "[\"\\\\\nn,={} a]{0,6}", 1 => "[\\\\]{1,4}", 1 => "[a-z]{1,5}", 1 => "[\r\t\"\\\\']{1,4}"];
    let key = || prop_oneof![3 => Just("a".to_string()), 3 => gen::ident_key()];
    let item = (
        prop_oneof![3 => "[a-z_:]{1,8}", 1 => gen::name()],
        prop_oneof![
            200 => proptest::collection::vec((key(), value()), 0..5),
            1 => proptest::collection::vec(("[a-z_]{1,3}", value()), 0..300),
            1 => proptest::collection::vec((key(), gen::long_text(70_000)), 0..3),
        ],
        prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec(0usize..3, 1..3)],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(name, md, formatters, pinned, lazy)| Item { name, md, formatters, pinned, lazy });
    ctx.check("format", ctx.cases(250_000, 8), proptest::collection::vec(item, 1..4), |items: &Vec<Item>, obs: &mut Obs| {
        let mut hold = vec![];
        for (i, it) in items.iter().enumerate() {
            let mut b = crate::util::builder(&it.name, &None, &it.md).provide(i);
            for f in &it.formatters {
                b = b.formatter(FORMATTERS[*f]);
            }
            hold.push(if it.pinned {
                let (m, e) = b.build_pinned(Counter::new());
                let m = Box::pin(m);
                m.as_ref().register(e);
                Hold::_P(m)
            } else if it.lazy {
                Hold::_L(b.build(LazyGauge::default()))
            } else {
                Hold::_B(b.build(Counter::new()))
            });
            obs.nontrivial(!it.formatters.is_empty() || it.md.iter().any(|(_, v)| v.contains(['"', '\\', '\n', ',', '}'])));
            obs.label_if(it.md.iter().any(|(_, v)| v.contains(['"', '\\', '\n'])), "value needs escaping");
        }
        let view = metrics();
        let mut n = 0;
        for e in view.dynamic_metrics() {
            let i = *e.request_ref::<usize>().ok_or("entry lost its data")?;
            let it = &items[i];
            entry_ok(e, it.formatters.last().copied(), &it.name, &crate::util::last_wins(&it.md))?;
            n += 1;
        }
        ensure_eq!(n, items.len(), "dynamic entries formatted");
        let md = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<BTreeMap<_, _>>();
        let mut n = 0;
        for e in view.static_metrics() {
            match e.name() {
                "st.f0" => entry_ok(e, Some(0), "st.f0", &md(&[]))?,
                "st.f1" => entry_ok(e, Some(1), "st.f1", &md(&[("a", "x"), ("b", "y\"z")]))?,
                "st.f2" => entry_ok(e, Some(2), "st.f2", &md(&[]))?,
                "st.none" => entry_ok(e, None, "st.none", &md(&[("device", "C:\\dir\n\"q\""), ("mode", "{a=\"b\",c}"), ("empty", "")]))?,
                "PLAIN" => entry_ok(e, None, "PLAIN", &md(&[]))?,
                "fmt" => {
                    ensure_eq!(e.formatted(Format::Simple), "!fmt!S!1", "static formatter");
                    ensure_eq!(e.formatted(Format::Prometheus), "!fmt!P!1", "static formatter");
                    continue;
                }
                _ => continue,
            }
            n += 1;
        }
        ensure_eq!(n, 5, "static entries formatted");
        ensure!(Lazy::get(&ST2).is_none(), "formatting initialised a lazy metric");
        drop(view);
        drop(hold);
        Ok(())
    });
    let _ = (&ST0, &ST1, &ST3);
}
