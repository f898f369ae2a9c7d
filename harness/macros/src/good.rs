//! C10: well-formed declarations.
use std::collections::BTreeMap;
use std::fmt::Write;
use std::process::Command;

use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use vcommon::{ensure, ensure_eq, CaseResult, Ctx, Obs};

use crate::lit::*;
use crate::project::*;

/// The crate a declaration is in, by how that crate knows metriken.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
enum Home {
    /// by its own name
    Named,
    /// by another name
    Renamed,
    /// only through another crate's re-export
    Reexport,
}
const HOMES: [(Home, &str); 3] = [(Home::Named, "lib_a"), (Home::Renamed, "lib_b"), (Home::Reexport, "lib_c")];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Scope {
    Module,
    Nested,
    Function,
    /// expanded from a macro_rules macro that gets the values as fragments
    Macro,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Vis {
    Private,
    Crate,
    Public,
    InPath,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Ty {
    Counter(Option<u64>),
    Gauge(Option<i64>),
    LazyCounter,
    LazyGauge,
    Event,
    Bulk,
    Custom(u64),
}

/// How a value expression is written.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Form {
    Lit(Spell),
    Concat,
    Const,
    Block,
    Paren,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum KeyForm {
    Ident,
    RawIdent,
    Lit(Spell),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Decl {
    home: Home,
    scope: Scope,
    vis: Vis,
    ident: String,
    raw_ident: bool,
    ty: Ty,
    name: Option<(String, Form)>,
    description: Option<(String, Form)>,
    metadata: Option<Vec<(String, KeyForm, String, Form)>>,
    trailing_comma: bool,
    /// 0: none, 1-3: formatters, 4: a closure
    formatter: u8,
    /// which way of naming the crate, where there are several
    krate: u8,
    order: u32,
    attrs: u8,
    parens: bool,
}

fn form() -> impl Strategy<Value = Form> {
    prop_oneof![6 => spell().prop_map(Form::Lit), 1 => Just(Form::Concat), 1 => Just(Form::Const), 1 => Just(Form::Block), 1 => Just(Form::Paren)]
}

fn key() -> impl Strategy<Value = (String, KeyForm)> {
    let text = prop_oneof![
        4 => "[a-zA-Z_][a-zA-Z0-9_]{0,5}",
        2 => "[a-c]{1,2}",
        2 => "[a-z]{1,3}[.:/ -][a-z]{0,3}",
        1 => prop::sample::select(vec!["type", "name", "metadata", "description", "formatter", "crate", "fn", "self", "static", "phf", "metric"]).prop_map(String::from),
        1 => value(),
    ];
    let kf = prop_oneof![4 => Just(KeyForm::Ident), 1 => Just(KeyForm::RawIdent), 3 => spell().prop_map(KeyForm::Lit)];
    (text, kf).prop_map(|(t, f)| {
        let f = match f {
            KeyForm::Ident if !identish(&t) => KeyForm::Lit(Spell::Plain),
            KeyForm::RawIdent if !rawish(&t) => KeyForm::Lit(Spell::Raw),
            f => f,
        };
        (t, f)
    })
}

fn decl() -> impl Strategy<Value = Decl> {
    let home = prop_oneof![3 => Just(Home::Named), 2 => Just(Home::Renamed), 2 => Just(Home::Reexport)];
    let scope = prop_oneof![4 => Just(Scope::Module), 1 => Just(Scope::Nested), 1 => Just(Scope::Function), 2 => Just(Scope::Macro)];
    let vis = prop_oneof![2 => Just(Vis::Private), 1 => Just(Vis::Crate), 2 => Just(Vis::Public), 1 => Just(Vis::InPath)];
    let ty = prop_oneof![
        2 => proptest::option::of(any::<u64>()).prop_map(Ty::Counter),
        2 => proptest::option::of(any::<i64>()).prop_map(Ty::Gauge),
        1 => Just(Ty::LazyCounter),
        1 => Just(Ty::LazyGauge),
        1 => Just(Ty::Event),
        1 => Just(Ty::Bulk),
        1 => any::<u64>().prop_map(Ty::Custom),
    ];
    let ident = prop_oneof![4 => "[A-Z][A-Z0-9_]{0,8}", 1 => "[a-z][a-z0-9_]{1,6}", 1 => "_[a-zA-Z]{1,4}", 1 => prop::sample::select(vec!["type", "match", "METRICS", "Counter", "name", "fn", "formatter"]).prop_map(String::from)];
    let md = prop_oneof![
        8 => proptest::collection::vec((key(), value(), form()), 0..6),
        1 => proptest::collection::vec((key(), value(), form()), 6..20),
        1 => proptest::collection::vec((key(), value(), form()), 20..70),
    ];
    (
        (home, scope, vis, ident, any::<bool>(), ty),
        (
            proptest::option::of((value(), form())),
            proptest::option::of((value(), form())),
            proptest::option::weighted(0.7, md),
            any::<bool>(),
            prop_oneof![3 => Just(0u8), 2 => 1u8..5],
        ),
        (any::<u8>(), any::<u32>(), any::<u8>(), any::<bool>()),
    )
        .prop_map(|((home, scope, vis, ident, raw, ty), (name, description, md, trailing_comma, formatter), (krate, order, attrs, parens))| {
            let raw_ident = rawish(&ident) && (raw && ident.len() % 3 == 0 || keyword(&ident));
            let metadata = md.map(|v| {
                let mut seen = std::collections::BTreeSet::new();
                v.into_iter().filter(|((k, _), _, _)| seen.insert(k.clone())).map(|((k, kf), val, f)| (k, kf, val, f)).collect()
            });
            Decl { home, scope, vis, ident, raw_ident, ty, name, description, metadata, trailing_comma, formatter, krate, order, attrs, parens }
        })
}

impl Decl {
    /// The declaration is configured away.
    fn disabled(&self) -> bool {
        self.attrs % 16 == 7 || self.attrs % 16 == 11
    }
    fn k(&self) -> &'static str {
        match self.home {
            Home::Named => "metriken",
            Home::Renamed => "mk",
            Home::Reexport => "mid::reexport",
        }
    }
    fn ty_text(&self) -> String {
        let k = self.k();
        match self.ty {
            Ty::Counter(_) => format!("{k}::Counter"),
            Ty::Gauge(_) => format!("{k}::Gauge"),
            Ty::LazyCounter => format!("{k}::LazyCounter"),
            Ty::LazyGauge => format!("{k}::LazyGauge"),
            Ty::Event => format!("{k}::AtomicHistogram"),
            Ty::Bulk => format!("{k}::RwLockHistogram"),
            Ty::Custom(_) => "probe::Custom".into(),
        }
    }
    fn init_text(&self) -> String {
        let k = self.k();
        match &self.ty {
            Ty::Counter(None) => format!("{k}::Counter::new()"),
            Ty::Counter(Some(v)) => format!("{{ const V: u64 = {v}; {k}::Counter::with_value(V) }}"),
            Ty::Gauge(None) => format!("{k}::Gauge::new()"),
            Ty::Gauge(Some(v)) => format!("{k}::Gauge::with_value({v})"),
            Ty::LazyCounter => format!("{k}::LazyCounter::new(|| {k}::Counter::with_value(9))"),
            Ty::LazyGauge => format!("{k}::Lazy::new({k}::Gauge::default)"),
            Ty::Event => format!("{k}::AtomicHistogram::new(2, 9)"),
            Ty::Bulk => format!("{k}::RwLockHistogram::new(1, 3)"),
            Ty::Custom(v) => format!("probe::Custom::new({v})"),
        }
    }
    /// What a reading shows before anything is marked.
    fn initial(&self) -> String {
        match &self.ty {
            Ty::Counter(v) => format!("c{}", v.unwrap_or(0)),
            Ty::Gauge(v) => format!("g{}", v.unwrap_or(0)),
            Ty::LazyCounter | Ty::LazyGauge => "none".into(),
            Ty::Event => "h empty".into(),
            Ty::Bulk => "h empty".into(),
            Ty::Custom(v) => format!("c{v}"),
        }
    }
    fn marked(&self, id: usize) -> String {
        let m = 1_000 + id;
        match &self.ty {
            Ty::Counter(_) | Ty::LazyCounter | Ty::Custom(_) => format!("c{m}"),
            Ty::Gauge(_) | Ty::LazyGauge => format!("g-{m}"),
            Ty::Event => format!("h 2/9 {m}"),
            Ty::Bulk => format!("h 1/3 {m}"),
        }
    }
    /// Enabled or not, and what as_any leads to, before and after it is used.
    fn state(&self, used: bool) -> &'static str {
        match self.ty {
            Ty::Counter(_) => "on counter",
            Ty::Gauge(_) => "on gauge",
            Ty::LazyCounter | Ty::LazyGauge if !used => "off nothing",
            Ty::LazyCounter => "on counter",
            Ty::LazyGauge => "on gauge",
            Ty::Event => "on event",
            Ty::Bulk => "on bulk",
            Ty::Custom(v) if v % 3 == 0 => "off custom",
            Ty::Custom(_) => "on custom",
        }
    }
    fn static_ident(&self, id: usize) -> String {
        // a keyword needs no suffix: it is alone in its module anyway
        if keyword(&self.ident) {
            self.ident.clone()
        } else {
            format!("{}_{id}", self.ident)
        }
    }
    fn real_name(&self, id: usize) -> String {
        self.name.as_ref().map_or_else(|| self.static_ident(id), |n| n.0.clone())
    }
    fn md(&self) -> BTreeMap<String, String> {
        self.metadata.iter().flatten().map(|(k, _, v, _)| (k.clone(), v.clone())).collect()
    }
    fn simple(&self, id: usize) -> String {
        let (name, n) = (self.real_name(id), self.md().len());
        match self.formatter {
            1 => format!("one S {name} {n}"),
            2 => "two".into(),
            3 => format!("one S {name} {n}"),
            4 => format!("closure {name}"),
            _ => name,
        }
    }

    /// The source of module m{id}, and constants for the top of the crate.
    fn source(&self, id: usize) -> (String, String) {
        let mut consts = String::new();
        let mut frags: Vec<(String, &str, String)> = vec![];
        let in_macro = self.scope == Scope::Macro;
        let mut n = 0;
        let mut expr = |s: &str, f: Form, frags: &mut Vec<(String, &'static str, String)>| -> String {
            let text = match f {
                Form::Lit(sp) => literal(s, sp),
                Form::Concat => {
                    let mid = s.char_indices().map(|c| c.0).nth(s.chars().count() / 2).unwrap_or(0);
                    format!("concat!({}, {})", literal(&s[..mid], Spell::Plain), literal(&s[mid..], Spell::Plain))
                }
                Form::Const => {
                    let c = format!("S_{id}_{n}");
                    let _ = writeln!(consts, "pub const {c}: &str = {};", literal(s, Spell::Plain));
                    format!("crate::{c}")
                }
                Form::Block => format!("{{ {} }}", literal(s, Spell::Plain)),
                Form::Paren => format!("({})", literal(s, Spell::Raw)),
            };
            n += 1;
            if in_macro {
                let v = format!("e{n}");
                let frag = if matches!(f, Form::Lit(_)) && n % 2 == 0 { "literal" } else { "expr" };
                frags.push((v.clone(), frag, text));
                format!("${v}")
            } else {
                text
            }
        };
        let mut args: Vec<String> = vec![];
        if let Some((s, f)) = &self.name {
            args.push(format!("name = {}", expr(s, *f, &mut frags)));
        }
        if let Some((s, f)) = &self.description {
            args.push(format!("description = {}", expr(s, *f, &mut frags)));
        }
        if let Some(md) = &self.metadata {
            let mut items = vec![];
            for (i, (k, kf, v, f)) in md.iter().enumerate() {
                let mut key = match kf {
                    KeyForm::Ident => k.clone(),
                    KeyForm::RawIdent => format!("r#{k}"),
                    KeyForm::Lit(sp) => literal(k, *sp),
                };
                if in_macro && matches!(kf, KeyForm::Ident) && i % 2 == 0 {
                    let v = format!("k{i}");
                    frags.push((v.clone(), "ident", key));
                    key = format!("${v}");
                }
                items.push(format!("{key} = {}", expr(v, *f, &mut frags)));
            }
            let tail = if self.trailing_comma && !items.is_empty() { "," } else { "" };
            args.push(format!("metadata = {{ {}{tail} }}", items.join(", ")));
        }
        match self.formatter {
            0 => {}
            1 => args.push("formatter = crate::fmt_one".into()),
            2 => args.push("formatter = crate::fmt::two".into()),
            3 => args.push("formatter = { crate::fmt_one }".into()),
            _ => args.push("formatter = |e, _| format!(\"closure {}\", e.name())".into()),
        }
        let krate = match self.home {
            Home::Named => [None, None, Some("metriken"), Some("::metriken"), Some("crate::local"), Some("crate::local::again")][self.krate as usize % 6],
            Home::Renamed => [None, None, Some("mk"), Some("crate::local")][self.krate as usize % 4],
            Home::Reexport => [Some("mid::reexport"), Some("::mid::reexport"), Some("mid::deep"), Some("crate::local"), Some("mid::deep::er")][self.krate as usize % 5],
        };
        if let Some(k) = krate {
            args.push(format!("crate = {k}"));
        }
        // any order
        let mut o = self.order as usize;
        for i in (1..args.len()).rev() {
            args.swap(i, o % (i + 1));
            o /= i + 1;
        }
        let attr = match (args.is_empty(), self.parens) {
            (true, false) => format!("#[{}::metric]", self.k()),
            (true, true) => format!("#[{}::metric()]", self.k()),
            (false, p) => format!("#[{}::metric({})]", self.k(), args.join(if p { ",\n    " } else { ", " })),
        };
        let (before, after) = match self.attrs % 16 {
            1 => ("/// a documented metric\n", ""),
            2 => ("", "/// a documented metric\n"),
            3 => ("#[allow(dead_code)]\n", "#[allow(unused)]\n"),
            4 => ("#[cfg(all())]\n", ""),
            5 => ("", "#[cfg(all())]\n"),
            7 => ("#[cfg(any())]\n", ""),
            11 => ("", "#[cfg(any())]\n"),
            12 => ("", "#[doc(hidden)]\n#[allow(clippy::all)]\n"),
            _ => ("", ""),
        };
        let id_text = if self.raw_ident { format!("r#{}", self.static_ident(id)) } else { self.static_ident(id) };
        let vis = match self.vis {
            _ if self.scope == Scope::Function => "",
            Vis::Private => "",
            Vis::Crate => "pub(crate) ",
            Vis::Public => "pub ",
            Vis::InPath => "pub(in crate) ",
        };
        let (ty, init) = (self.ty_text(), self.init_text());
        let mut item = format!("{before}{attr}\n{after}{vis}static {id_text}: {ty} = {init};\n");
        if in_macro {
            // the macro gets the name and the values
            item = item.replace(&format!("static {id_text}:"), "static $id:");
            let params: String = frags.iter().map(|(v, k, _)| format!(", ${v}:{k}")).collect();
            let values: String = frags.iter().map(|(_, _, t)| format!(", {t}")).collect();
            item = format!("macro_rules! declare {{ ($id:ident{params}) => {{\n{item}}} }}\ndeclare!({id_text}{values});\n");
        }
        let get = |path: &str| {
            if self.disabled() {
                "None".to_string()
            } else {
                format!("Some(probe::probe::<_, {ty}>({id}, &{path}))")
            }
        };
        let body = match self.scope {
            Scope::Module | Scope::Macro => format!("{item}pub fn get() -> Option<probe::P> {{ {} }}\n", get(&id_text)),
            Scope::Nested => format!("pub mod inner {{ pub mod most {{\n{item}pub fn get() -> Option<probe::P> {{ {} }}\n}} }}\npub use inner::most::get;\n", get(&id_text)),
            Scope::Function => format!("pub fn get() -> Option<probe::P> {{\n{item}{}\n}}\n", get(&id_text)),
        };
        (format!("#[allow(warnings)]\npub mod m{id} {{\n{body}}}\n"), consts)
    }

    /// Where the static can be reached from outside its module, and from where.
    fn outside(&self, id: usize) -> Option<(bool, String)> {
        if self.disabled() || self.scope == Scope::Function {
            return None;
        }
        let m = if self.scope == Scope::Nested { format!("m{id}::inner::most") } else { format!("m{id}") };
        let i = if self.raw_ident { format!("r#{}", self.static_ident(id)) } else { self.static_ident(id) };
        match self.vis {
            Vis::Private => None,
            Vis::Crate | Vis::InPath => Some((false, format!("{m}::{i}"))),
            Vis::Public => Some((true, format!("{m}::{i}"))),
        }
    }
}

const PROBE: &str = r##"//! Reads and marks metrics of the generated program.
use metriken::*;
use std::any::{Any, TypeId};

pub struct Custom(u64, Counter);
impl Custom {
    pub const fn new(v: u64) -> Self { Custom(v, Counter::with_value(v)) }
}
impl Metric for Custom {
    fn is_enabled(&self) -> bool { self.0 % 3 != 0 }
    fn as_any(&self) -> Option<&dyn Any> { Some(self) }
    fn value(&self) -> Option<Value<'_>> { Some(Value::Counter(self.1.value())) }
    // what the declaration says comes before what the type offers
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        static OWN: std::sync::OnceLock<Metadata> = std::sync::OnceLock::new();
        if self.0 % 4 != 2 {
            r.provide_ref::<Metadata>(OWN.get_or_init(|| std::collections::HashMap::from([("own".to_string(), "x".to_string()), ("a".to_string(), "own".to_string())]).into()));
        }
    }
}

pub fn show(m: &dyn Metric) -> String {
    match m.value() {
        None => "none".into(),
        Some(Value::Counter(v)) => format!("c{v}"),
        Some(Value::Gauge(v)) => format!("g{v}"),
        Some(Value::Other(o)) => {
            let h = o.downcast_ref::<AtomicHistogram>().map(|h| h.load()).or_else(|| o.downcast_ref::<RwLockHistogram>().map(|h| h.load()));
            match h {
                None => "other".into(),
                Some(None) => "h empty".into(),
                Some(Some(h)) => format!("h {}/{} {}", h.config().grouping_power(), h.config().max_value_power(), h.as_slice().iter().sum::<u64>()),
            }
        }
        _ => "?".into(),
    }
}

/// Whether it is enabled, and what as_any leads to.
pub fn state(m: &dyn Metric) -> String {
    let any = match m.as_any() {
        None => "nothing",
        Some(a) if a.is::<Counter>() => "counter",
        Some(a) if a.is::<Gauge>() => "gauge",
        Some(a) if a.is::<AtomicHistogram>() => "event",
        Some(a) if a.is::<RwLockHistogram>() => "bulk",
        Some(a) if a.is::<Custom>() => "custom",
        Some(_) => "?",
    };
    format!("{} {any}", if m.is_enabled() { "on" } else { "off" })
}

pub trait Mark: Metric { fn mark(&self, m: u64); }
impl Mark for Counter { fn mark(&self, m: u64) { self.set(m); } }
impl Mark for Gauge { fn mark(&self, m: u64) { self.set(-(m as i64)); } }
impl Mark for LazyCounter { fn mark(&self, m: u64) { (**self).set(m); } }
impl Mark for LazyGauge { fn mark(&self, m: u64) { (**self).set(-(m as i64)); } }
impl Mark for AtomicHistogram { fn mark(&self, m: u64) { for i in 0..m { self.increment(i % 512).unwrap(); } } }
impl Mark for RwLockHistogram { fn mark(&self, m: u64) { let mut v = vec![0; self.config().total_buckets()]; v[1] = m; self.update_from(&v).unwrap(); } }
impl Mark for Custom { fn mark(&self, m: u64) { self.1.set(m); } }

pub struct P { pub id: usize, pub same_type: bool, pub metric: &'static (dyn Mark + Sync) }

/// `T` is the type the static has, `W` the one it was declared with.
pub fn probe<T: Mark + Sync + 'static, W: 'static>(id: usize, m: &'static T) -> P {
    P { id, same_type: TypeId::of::<T>() == TypeId::of::<W>(), metric: m }
}

pub fn same<T>(a: &'static T, p: &P) -> bool {
    std::ptr::eq(a as *const T as *const u8, p.metric as *const (dyn Mark + Sync) as *const u8)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => { o.push('\\'); o.push(c) }
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

pub fn listing() -> String {
    let mut v = vec![];
    for e in metrics().static_metrics().iter() {
        let mut md: Vec<_> = e.metadata().iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect();
        md.sort();
        let d = e.description().map_or("null".to_string(), js);
        v.push(format!("{{\"name\":{},\"description\":{d},\"metadata\":{{{}}},\"pairs\":{},\"simple\":{},\"prometheus\":{},\"state\":{},\"value\":{}}}", js(e.name()), md.join(","), e.metadata().iter().count(), js(&e.formatted(Format::Simple)), js(&e.formatted(Format::Prometheus)), js(&state(e.metric())), js(&show(e.metric()))));
    }
    format!("[{}]", v.join(","))
}

pub fn main(all: Vec<P>) {
    let before = listing();
    let p: Vec<String> = all.iter().map(|p| format!("{{\"id\":{},\"same_type\":{},\"initial\":{}}}", p.id, p.same_type, js(&show(p.metric)))).collect();
    for p in &all { p.metric.mark(1000 + p.id as u64); }
    println!("{{\"probes\":[{}],\"before\":{before},\"after\":{}}}", p.join(","), listing());
}
"##;

fn lib_text(home: Home, decls: &[(usize, &Decl)]) -> (String, Vec<(usize, usize, usize)>) {
    let k = match home {
        Home::Named => "metriken",
        Home::Renamed => "mk",
        Home::Reexport => "mid::reexport",
    };
    let mut out = format!(
        "pub mod local {{ pub use {k}::*; pub mod again {{ pub use super::*; }} }}
pub fn fmt_one(e: &{k}::MetricEntry, f: {k}::Format) -> String {{
    format!(\"one {{}} {{}} {{}}\", if matches!(f, {k}::Format::Simple) {{ 'S' }} else {{ 'P' }}, e.name(), e.metadata().len())
}}
pub mod fmt {{ pub fn two(_: &{k}::MetricEntry, _: {k}::Format) -> String {{ \"two\".into() }} }}
"
    );
    let mut ranges = vec![];
    let mut gets = String::new();
    for (id, d) in decls {
        let (src, consts) = d.source(*id);
        out.push_str(&consts);
        let first = out.lines().count() + 1;
        out.push_str(&src);
        ranges.push((*id, first, out.lines().count()));
        let _ = writeln!(gets, "    v.extend(m{id}::get());");
        if let Some((false, path)) = d.outside(*id) {
            let _ = writeln!(gets, "    assert!(probe::same(&{path}, v.last().unwrap()));");
        }
    }
    let _ = write!(out, "#[allow(warnings)]\npub fn all() -> Vec<probe::P> {{\n    let mut v: Vec<probe::P> = vec![];\n{gets}    v\n}}\n");
    (out, ranges)
}

struct Program {
    project: Project,
    ranges: Vec<(&'static str, usize, usize, usize)>,
}

fn program(ctx: &Ctx, name: &str, decls: &[(usize, Decl)]) -> Program {
    let p = Project::new(ctx, name);
    let repo = repo().display().to_string();
    let dep = format!("metriken = {{ path = \"{repo}/metriken\" }}\n");
    let manifest = |n: &str, deps: &str| format!("[package]\nname = \"{n}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\n{deps}");
    p.write("Cargo.toml", "[workspace]\nmembers = [\"probe\", \"mid\", \"lib_a\", \"lib_b\", \"lib_c\", \"app\"]\nresolver = \"2\"\n\n[profile.dev]\ndebug = 0\nincremental = false\n");
    p.write("probe/Cargo.toml", &manifest("probe", &format!("{dep}metriken-core = {{ path = \"{repo}/metriken-core\" }}\n")));
    p.write("probe/src/lib.rs", PROBE);
    p.write("mid/Cargo.toml", &manifest("mid", &dep));
    p.write("mid/src/lib.rs", "pub use metriken as reexport;\npub mod deep { pub use metriken::*; pub mod er { pub use metriken::*; } }\n");
    let pr = "probe = { path = \"../probe\" }\n";
    p.write("lib_a/Cargo.toml", &manifest("lib_a", &format!("{dep}{pr}")));
    p.write("lib_b/Cargo.toml", &manifest("lib_b", &format!("mk = {{ package = \"metriken\", path = \"{repo}/metriken\" }}\n{pr}")));
    p.write("lib_c/Cargo.toml", &manifest("lib_c", &format!("mid = {{ path = \"../mid\" }}\n{pr}")));
    p.write("app/Cargo.toml", &manifest("app", &format!("{pr}lib_a = {{ path = \"../lib_a\" }}\nlib_b = {{ path = \"../lib_b\" }}\nlib_c = {{ path = \"../lib_c\" }}\n")));
    let mut ranges = vec![];
    let mut outer = String::new();
    for (home, lib) in HOMES {
        let mine: Vec<(usize, &Decl)> = decls.iter().filter(|d| d.1.home == home).map(|(i, d)| (*i, d)).collect();
        let (text, r) = lib_text(home, &mine);
        p.write(&format!("{lib}/src/lib.rs"), &text);
        ranges.extend(r.into_iter().map(|(i, a, b)| (lib, i, a, b)));
        for (id, d) in mine {
            if let Some((true, path)) = d.outside(id) {
                let _ = writeln!(outer, "    assert!(probe::same(&{lib}::{path}, all.iter().find(|p| p.id == {id}).unwrap()));");
            }
        }
    }
    p.write("app/src/main.rs", &format!("fn main() {{\n    let mut all = lib_a::all();\n    all.extend(lib_b::all());\n    all.extend(lib_c::all());\n{outer}    probe::main(all);\n}}\n"));
    Program { project: p, ranges }
}

enum Outcome {
    /// nothing to judge: not even a program without declarations builds
    Stuck(String),
    Rejected(Vec<usize>, String),
    Ran(J),
    Died(String),
}

fn execute(ctx: &Ctx, name: &str, decls: &[(usize, Decl)]) -> Outcome {
    let p = program(ctx, name, decls);
    let b = p.project.cargo(&["build", "--keep-going"]);
    if !b.ok {
        let mut hit: Vec<usize> = vec![];
        for e in &b.errors {
            for (lib, id, a, z) in &p.ranges {
                if e.target == *lib && e.lines.iter().any(|l| l.0 >= *a && l.0 <= *z) {
                    hit.push(*id);
                }
            }
        }
        hit.sort();
        hit.dedup();
        let msg = b.errors.iter().map(|e| e.rendered.clone()).chain([b.stderr]).find(|s| !s.trim().is_empty()).unwrap_or_default();
        return if hit.is_empty() && b.errors.is_empty() { Outcome::Stuck(msg) } else { Outcome::Rejected(hit, msg) };
    }
    let out = Command::new(p.project.bin("app")).output().expect("run");
    match serde_json::from_slice(&out.stdout) {
        Ok(v) if out.status.success() => Outcome::Ran(v),
        _ => Outcome::Died(String::from_utf8_lossy(&out.stderr).chars().take(500).collect()),
    }
}

/// Judge one declaration by what the program printed.
fn judge(id: usize, d: &Decl, v: &J) -> CaseResult {
    let after: Vec<&J> = v["after"].as_array().into_iter().flatten().collect();
    let probe = v["probes"].as_array().into_iter().flatten().find(|p| p["id"] == id);
    let mine: Vec<&&J> = after.iter().filter(|e| e["value"] == d.marked(id)).collect();
    if d.disabled() {
        ensure!(mine.is_empty(), "a declaration that is configured away is listed");
        return Ok(());
    }
    let probe = probe.ok_or("the static was not probed")?;
    ensure!(probe["same_type"] == true, "the static does not have its declared type");
    ensure_eq!(probe["initial"].as_str(), Some(&*d.initial()), "initial reading of the static");
    ensure_eq!(mine.len(), 1, "entries that read this static (its value shows as {:?})", d.marked(id));
    let e = mine[0];
    ensure_eq!(e["name"].as_str(), Some(&*d.real_name(id)), "name");
    ensure_eq!(e["description"].as_str(), d.description.as_ref().map(|x| &*x.0), "description");
    let md: BTreeMap<String, String> = e["metadata"].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect();
    ensure_eq!(md, d.md(), "metadata");
    ensure_eq!(e["pairs"].as_u64(), Some(d.md().len() as u64), "pairs of metadata");
    ensure_eq!(e["simple"].as_str(), Some(&*d.simple(id)), "simple format");
    if matches!(d.formatter, 1..=4) {
        ensure_eq!(e["prometheus"].as_str(), Some(&*d.simple(id).replacen("one S", "one P", 1)), "prometheus format");
    }
    ensure_eq!(e["state"].as_str(), Some(d.state(true)), "enabled state and as_any of the entry after a use");
    Ok(())
}

/// Names, values and states of the whole listing, before anything was marked.
fn judge_all(decls: &[(usize, Decl)], v: &J) -> CaseResult {
    let mut want: Vec<(String, String, String)> = decls.iter().filter(|d| !d.1.disabled()).map(|(i, d)| (d.real_name(*i), d.initial(), d.state(false).to_string())).collect();
    let text = |e: &J, k: &str| e[k].as_str().unwrap_or("").to_string();
    let mut got: Vec<(String, String, String)> = v["before"].as_array().into_iter().flatten().map(|e| (text(e, "name"), text(e, "value"), text(e, "state"))).collect();
    want.sort();
    got.sort();
    if want != got {
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).take(3).collect();
        let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
        return Err(format!("{} entries are listed for {} declarations; not declared: {extra:?}; not listed: {missing:?}", got.len(), want.len()));
    }
    Ok(())
}

/// Is this single declaration in a program of its own handled wrongly?
fn alone(ctx: &Ctx, d: &Decl) -> CaseResult {
    let decls = [(0usize, d.clone())];
    match execute(ctx, "one", &decls) {
        Outcome::Stuck(m) => {
            eprintln!("the generated program does not build: {m}");
            std::process::exit(2)
        }
        Outcome::Rejected(_, m) => Err(format!("a well-formed declaration does not compile: {}", m.lines().take(6).collect::<Vec<_>>().join(" | "))),
        Outcome::Died(m) => Err(format!("the program with this declaration fails: {m}")),
        Outcome::Ran(v) => {
            judge(0, d, &v)?;
            judge_all(&decls, &v)
        }
    }
}

fn shrink(ctx: &Ctx, mut tree: Box<dyn ValueTree<Value = Decl>>, mut msg: String) -> (Decl, String) {
    let mut best = tree.current();
    for _ in 0..24 {
        if !tree.simplify() {
            break;
        }
        let d = tree.current();
        match alone(ctx, &d) {
            Err(m) => {
                best = d;
                msg = m;
            }
            Ok(()) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    (best, msg)
}

fn observe(d: &Decl) -> Obs {
    let mut o = Obs::default();
    let md = d.metadata.as_ref().map_or(0, |m| m.len());
    let args = d.name.is_some() as usize + d.description.is_some() as usize + d.metadata.is_some() as usize + (d.formatter > 0) as usize;
    o.nontrivial(args >= 2 || md >= 2);
    o.label_if(d.scope == Scope::Macro, "from macro_rules");
    o.label_if(d.scope == Scope::Function, "inside a function");
    o.label_if(d.home == Home::Renamed, "renamed crate");
    o.label_if(d.home == Home::Reexport, "re-exported crate");
    o.label_if(d.name.is_none(), "unnamed");
    o.label_if(md >= 20, "20 metadata keys or more");
    o.label_if(d.raw_ident, "raw identifier");
    o.label_if(d.disabled(), "configured away");
    o.label_if(d.metadata.iter().flatten().any(|m| matches!(m.1, KeyForm::Lit(Spell::Escaped))), "escaped key");
    o.label_if(d.metadata.iter().flatten().any(|m| matches!(m.1, KeyForm::RawIdent)), "raw identifier key");
    o
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule("programs of many generated declarations (arguments in any order and any mixture, values as literals of every spelling, constants, concat!, blocks or macro fragments, metadata keys as identifiers, raw identifiers and strings, statics of every type, visibility and scope, crates that know metriken by name, by another name or through a re-export), compiled and run: the program marks each static with its own value and prints the listing (with values, enabled states, what as_any gives and both formats) before and after. Non-trivial: at least two arguments or two metadata keys");
    ctx.assume("the compiler is the one installed; no static is called like an item of the expansion (phf, __METADATA, __METADATA_MAP, MetricProvider, __ENTRY); the attribute's argument list has no trailing comma (the attribute refuses one)");
    if ctx.wants("declarations") {
        if let Some(c) = ctx.replay_case("declarations") {
            let d: Decl = serde_json::from_value(c.clone()).expect("declaration");
            match alone(ctx, &d) {
                Err(m) => ctx.violation("declarations", c, &m),
                Ok(()) => eprintln!("[C10/declarations] the replayed case holds"),
            }
        } else {
            let (programs, n) = (ctx.cases(8, 6), if ctx.thorough() { 700 } else { 400 });
            let t = std::time::Instant::now();
            let mut trees = ctx.generate("declarations", programs * n, decl());
            for k in 0..programs {
                let part: Vec<_> = trees.drain(..n as usize).collect();
                if !run_program(ctx, part) {
                    break;
                }
                eprintln!("[C10/declarations] program {k}: {n} declarations, {:.1}s", t.elapsed().as_secs_f64());
            }
        }
    }
    if ctx.wants("privacy") {
        privacy(ctx);
    }
}

fn run_program(ctx: &Ctx, trees: Vec<Box<dyn ValueTree<Value = Decl>>>) -> bool {
    let decls: Vec<(usize, Decl)> = trees.iter().map(|t| t.current()).enumerate().collect();
    for (_, d) in &decls {
        ctx.record("declarations", d, observe(d));
    }
    let mut trees: Vec<Option<Box<dyn ValueTree<Value = Decl>>>> = trees.into_iter().map(Some).collect();
    let mut report = |id: usize, msg: String| {
        let (d, msg) = shrink(ctx, trees[id].take().unwrap(), msg);
        ctx.violation("declarations", serde_json::to_value(&d).unwrap(), &msg);
    };
    match execute(ctx, "many", &decls) {
        Outcome::Stuck(m) => {
            eprintln!("the generated program does not build: {m}");
            std::process::exit(2)
        }
        Outcome::Rejected(ids, m) => {
            if !matches!(execute(ctx, "none", &[]), Outcome::Ran(_)) {
                eprintln!("not even a program without declarations builds: {m}");
                std::process::exit(2)
            }
            let suspects: Vec<usize> = if ids.is_empty() { (0..decls.len()).collect() } else { ids };
            for id in suspects.into_iter().take(40) {
                if let Err(e) = alone(ctx, &decls[id].1) {
                    report(id, e);
                    return false;
                }
            }
            // they only fail together
            ctx.violation("declarations", serde_json::json!({"declarations": decls}), &format!("well-formed declarations do not compile together: {}", m.lines().take(6).collect::<Vec<_>>().join(" | ")));
            false
        }
        Outcome::Died(m) => {
            ctx.violation("declarations", serde_json::json!({"declarations": decls}), &format!("the program fails: {m}"));
            false
        }
        Outcome::Ran(v) => {
            for (id, d) in &decls {
                if let Err(m) = judge(*id, d, &v) {
                    match alone(ctx, d) {
                        Err(m) => report(*id, m),
                        Ok(()) => ctx.violation("declarations", serde_json::json!({"declarations": decls, "declaration": id}), &format!("declaration {id} among others: {m}")),
                    }
                    return false;
                }
            }
            if let Err(m) = judge_all(&decls, &v) {
                ctx.violation("declarations", serde_json::json!({"declarations": decls}), &m);
                return false;
            }
            true
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Private {
    decl: Decl,
}

/// A static is not visible where its visibility does not reach.
fn privacy(ctx: &Ctx) {
    let strat = decl().prop_map(|mut d| {
        d.home = Home::Named;
        d.scope = if d.order % 3 == 0 { Scope::Macro } else { Scope::Module };
        d.attrs = 0;
        if matches!(d.vis, Vis::Public) {
            d.vis = Vis::Private;
        }
        Private { decl: d }
    });
    let cases: Vec<Decl> = match ctx.replay_case("privacy") {
        Some(c) => vec![serde_json::from_value::<Private>(c).expect("case").decl],
        None => ctx.generate("privacy", ctx.cases(80, 5), strat).iter().map(|t| t.current().decl).collect(),
    };
    let t = std::time::Instant::now();
    let p = Project::new(ctx, "privacy");
    p.write("Cargo.toml", &format!("[workspace]\nmembers = [\"probe\", \"vis\", \"use\"]\nresolver = \"2\"\n[profile.dev]\ndebug = 0\nincremental = false\n"));
    let dep = format!("metriken = {{ path = \"{}/metriken\" }}\n", repo().display());
    p.write("probe/Cargo.toml", &format!("[package]\nname = \"probe\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{dep}metriken-core = {{ path = \"{}/metriken-core\" }}\n", repo().display()));
    p.write("probe/src/lib.rs", PROBE);
    p.write("vis/Cargo.toml", &format!("[package]\nname = \"vis\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n{dep}probe = {{ path = \"../probe\" }}\n"));
    p.write("use/Cargo.toml", "[package]\nname = \"use\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nvis = { path = \"../vis\" }\n");
    let with: Vec<(usize, &Decl)> = cases.iter().enumerate().collect();
    p.write("vis/src/lib.rs", &lib_text(Home::Named, &with).0);
    // control: the crate itself compiles
    p.write("use/src/main.rs", "fn main() {}\n");
    let b = p.cargo(&["check", "--keep-going"]);
    if !b.ok {
        // what does not compile at all is the other sub-check's business
        eprintln!("[C10/privacy] the control does not compile; skipped");
        return;
    }
    let mut text = String::from("fn main() {\n");
    for (i, d) in cases.iter().enumerate() {
        let id = if d.raw_ident { format!("r#{}", d.static_ident(i)) } else { d.static_ident(i) };
        let _ = writeln!(text, "    let _ = &vis::m{i}::{id};");
    }
    text.push_str("}\n");
    p.write("use/src/main.rs", &text);
    let b = p.cargo(&["check", "--keep-going"]);
    for (i, d) in cases.iter().enumerate() {
        let mut o = observe(d);
        o.nontrivial = true;
        ctx.record("privacy", &Private { decl: d.clone() }, o);
        let line = i + 2;
        if !b.errors.iter().any(|e| e.lines.iter().any(|l| l.0 == line)) {
            ctx.violation("privacy", serde_json::to_value(&Private { decl: d.clone() }).unwrap(), &format!("a static declared {:?} can be used from another crate", d.vis));
            return;
        }
    }
    eprintln!("[C10/privacy] {} declarations in {:.1}s", cases.len(), t.elapsed().as_secs_f64());
}
