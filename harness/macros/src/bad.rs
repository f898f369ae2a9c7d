//! C11: malformed declarations.
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde::{Deserialize, Serialize};
use vcommon::{CaseResult, Ctx, Obs};

use crate::lit::*;
use crate::project::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Arg {
    Name,
    Description,
    Metadata,
    Formatter,
    Crate,
}

/// A metadata key as written.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum KeyForm {
    Ident,
    RawIdent,
    Lit(Spell),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Offence {
    /// the argument again, at this place; with the same value?
    Repeat { arg: Arg, at: u8, same: bool },
    /// the key again: written how, where, with the same value?
    Key { key: String, first: KeyForm, second: KeyForm, from: u8, to: u8, same: bool },
    /// an unknown argument
    Unknown { name: String, at: u8, value: u8 },
    /// not a list of `argument = value` on a static
    Syntax { kind: Syn, at: u8 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Syn {
    /// no comma between two arguments
    NoComma,
    /// two commas between two arguments
    TwoCommas,
    /// an argument without its `=`
    NoEq,
    /// an argument without its value
    NoValue,
    /// a bare value where an argument belongs
    Positional,
    /// no comma between two metadata entries
    EntryNoComma,
    /// a metadata key without value
    EntryNoValue,
    /// a metadata key that is neither identifier nor string
    EntryKey,
    /// metadata in other delimiters
    Delimiters,
    /// on a constant, a function, a type
    Const,
    Fn,
    Type,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    args: Vec<Arg>,
    keys: Vec<String>,
    offence: Offence,
    from_macro: bool,
}

fn key_text(k: &str, f: KeyForm) -> String {
    match f {
        KeyForm::Ident if identish(k) => k.to_string(),
        KeyForm::RawIdent if rawish(k) => format!("r#{k}"),
        KeyForm::Lit(s) => literal(k, s),
        _ => literal(k, Spell::Plain),
    }
}

impl Case {
    fn arg_text(&self, a: Arg, again: bool, same: bool) -> String {
        let other = again && !same;
        match a {
            Arg::Name => format!("name = {}", if other { "\"other\"" } else { "\"n\"" }),
            Arg::Description => format!("description = {}", if other { "\"other\"" } else { "\"d\"" }),
            Arg::Metadata if other => "metadata = { zzz = \"z\" }".into(),
            Arg::Metadata if again => "metadata = {}".into(),
            Arg::Metadata => format!("metadata = {{ {} }}", self.md(false).join(", ")),
            Arg::Formatter => format!("formatter = {}", if other { "|e, _| e.name().to_string()" } else { "metriken::default_formatter" }),
            Arg::Crate => format!("crate = {}", if other { "::metriken" } else { "metriken" }),
        }
    }

    fn md(&self, bad: bool) -> Vec<String> {
        let mut v: Vec<String> = self.keys.iter().enumerate().map(|(i, k)| format!("{} = \"v{i}\"", key_text(k, KeyForm::Lit(Spell::Plain)))).collect();
        if let Offence::Key { key, first, second, from, to, same } = &self.offence {
            let at = *from as usize % (v.len() + 1);
            v.insert(at, format!("{} = \"x\"", key_text(key, *first)));
            if bad {
                let at = *to as usize % (v.len() + 1);
                v.insert(at, format!("{} = {}", key_text(key, *second), if *same { "\"x\"" } else { "\"y\"" }));
            }
        }
        if let (Offence::Syntax { kind, at }, true) = (&self.offence, bad) {
            let n = v.len();
            let i = *at as usize % n.max(1);
            match kind {
                Syn::EntryNoComma => {
                    let j = *at as usize % (n - 1);
                    v[j] = format!("{} {}", v[j], v[j + 1]);
                    v.remove(j + 1);
                }
                Syn::EntryNoValue => v[i] = v[i].split(" = ").next().unwrap().to_string() + if at % 2 == 0 { " =" } else { "" },
                Syn::EntryKey => v[i] = format!("{} = \"v\"", ["1", "a::b", "'c'", "(\"a\")", "b\"a\"", "true"][*at as usize % 6]),
                _ => {}
            }
        }
        v
    }

    /// The attribute with (or without) its offence.
    fn attribute(&self, bad: bool) -> String {
        let mut args: Vec<String> = self
            .args
            .iter()
            .map(|a| match a {
                Arg::Metadata => match &self.offence {
                    Offence::Syntax { kind: Syn::Delimiters, at } if bad => format!("metadata = {}{}{}", ["(", "["][*at as usize % 2], self.md(bad).join(", "), [")", "]"][*at as usize % 2]),
                    _ => format!("metadata = {{ {} }}", self.md(bad).join(", ")),
                },
                a => self.arg_text(*a, false, false),
            })
            .collect();
        if bad {
            match &self.offence {
                Offence::Repeat { arg, at, same } => {
                    let at = *at as usize % (args.len() + 1);
                    args.insert(at, self.arg_text(*arg, true, *same));
                }
                Offence::Unknown { name, at, value } => {
                    let v = match value % 5 {
                        0 => " = \"v\"",
                        1 => " = { a = \"b\" }",
                        2 => " = metriken",
                        3 => "",
                        _ => " = 5",
                    };
                    let at = *at as usize % (args.len() + 1);
                    args.insert(at, format!("{name}{v}"));
                }
                Offence::Key { .. } => {}
                Offence::Syntax { kind, at } => {
                    let n = args.len();
                    let i = *at as usize % n.max(1);
                    let j = if n > 1 { *at as usize % (n - 1) } else { 0 };
                    match kind {
                        Syn::NoComma | Syn::TwoCommas => {
                            let sep = if *kind == Syn::NoComma { " " } else { ", , " };
                            args[j] = format!("{}{sep}{}", args[j], args[j + 1]);
                            args.remove(j + 1);
                        }
                        Syn::NoEq => args[i] = args[i].replacen(" = ", " ", 1),
                        Syn::NoValue => args[i] = args[i].split(" = ").next().unwrap().to_string() + if at % 2 == 0 { " =" } else { "" },
                        Syn::Positional => args.insert(*at as usize % (n + 1), "\"text\"".into()),
                        _ => {}
                    }
                }
            }
        }
        format!("#[metriken::metric({})]", args.join(", "))
    }

    /// What the diagnostic has to name.
    fn offender(&self) -> String {
        match &self.offence {
            Offence::Repeat { arg, .. } => match arg {
                Arg::Name => "name",
                Arg::Description => "description",
                Arg::Metadata => "metadata",
                Arg::Formatter => "formatter",
                Arg::Crate => "crate",
            }
            .to_string(),
            Offence::Key { key, .. } => key.clone(),
            Offence::Unknown { name, .. } => name.trim_start_matches("r#").to_string(),
            Offence::Syntax { .. } => String::new(),
        }
    }

    fn source(&self, id: usize, bad: bool) -> String {
        let attr = self.attribute(bad);
        let item = match &self.offence {
            Offence::Syntax { kind: Syn::Const, .. } if bad => "pub const X: metriken::Counter = metriken::Counter::new();",
            Offence::Syntax { kind: Syn::Fn, .. } if bad => "pub fn x() -> metriken::Counter { metriken::Counter::new() }",
            Offence::Syntax { kind: Syn::Type, .. } if bad => "pub struct X(metriken::Counter);",
            _ => "pub static X: metriken::Counter = metriken::Counter::new();",
        };
        let item = format!("{attr}\n{item}");
        if self.from_macro {
            format!("pub mod m{id} {{ macro_rules! make {{ () => {{ {item} }} }} make!(); }}\n")
        } else {
            format!("pub mod m{id} {{ {item} }}\n")
        }
        .replace('\n', " ")
            + "\n"
    }
}

fn case() -> impl Strategy<Value = Case> {
    let arg = || prop::sample::select(vec![Arg::Name, Arg::Description, Arg::Metadata, Arg::Formatter, Arg::Crate]);
    let args = Just(vec![Arg::Name, Arg::Description, Arg::Metadata, Arg::Formatter, Arg::Crate]).prop_shuffle().prop_flat_map(|v| (0..=5usize).prop_map(move |n| v[..n].to_vec()));
    let kf = || prop_oneof![3 => Just(KeyForm::Ident), 1 => Just(KeyForm::RawIdent), 3 => spell().prop_map(KeyForm::Lit)];
    let key = prop_oneof![
        4 => "[a-z]{1,4}",
        2 => "[a-zA-Z_][a-zA-Z0-9_]{1,6}",
        2 => "[a-z]{1,3}[.:/-][a-z]{1,3}",
        1 => prop::sample::select(vec!["type", "name", "metadata", "description", "fn", "static", "formatter"]).prop_map(String::from),
    ];
    let unknown = prop_oneof![
        3 => prop::sample::select(vec![
            "names", "nam", "Name", "NAME", "desc", "descriptions", "Description", "metadatas", "meta", "metadat", "format", "formatters", "fmt", "krate", "crates", "unit", "help", "label", "labels", "metric", "kind", "ty", "namespace", "_name", "name_", "doc",
        ]).prop_map(String::from),
        2 => "[a-z]{1,3}[a-z_]{0,6}".prop_filter("known", |s: &String| identish(s) && !["name", "description", "metadata", "formatter", "crate"].contains(&s.as_str())),
    ];
    let offence = prop_oneof![
        3 => (arg(), any::<u8>(), any::<bool>()).prop_map(|(arg, at, same)| Offence::Repeat { arg, at, same }),
        4 => (key, kf(), kf(), any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(key, first, second, from, to, same)| Offence::Key { key, first, second, from, to, same }),
        3 => (unknown, any::<u8>(), any::<u8>()).prop_map(|(name, at, value)| Offence::Unknown { name, at, value }),
        3 => (prop::sample::select(vec![Syn::NoComma, Syn::TwoCommas, Syn::NoEq, Syn::NoValue, Syn::Positional, Syn::EntryNoComma, Syn::EntryNoValue, Syn::EntryKey, Syn::Delimiters, Syn::Const, Syn::Fn, Syn::Type]), any::<u8>()).prop_map(|(kind, at)| Offence::Syntax { kind, at }),
    ];
    let keys = prop_oneof![
        6 => proptest::collection::btree_set("[a-z]{5,6}", 0..4),
        1 => proptest::collection::btree_set("[a-z]{5,6}", 4..40),
    ];
    (args, keys, offence, prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|(mut args, keys, offence, from_macro)| {
        // the offence needs something to offend against
        let need = match &offence {
            Offence::Repeat { arg, .. } => Some(*arg),
            Offence::Key { .. } => Some(Arg::Metadata),
            Offence::Unknown { .. } => None,
            Offence::Syntax { kind, .. } => match kind {
                Syn::EntryNoComma | Syn::EntryNoValue | Syn::EntryKey | Syn::Delimiters => Some(Arg::Metadata),
                Syn::NoComma | Syn::TwoCommas | Syn::NoEq | Syn::NoValue => {
                    for n in [Arg::Description, Arg::Name] {
                        if args.len() < 2 && !args.contains(&n) {
                            args.push(n);
                        }
                    }
                    None
                }
                _ => None,
            },
        };
        if let Some(n) = need {
            if !args.contains(&n) {
                args.push(n);
            }
        }
        let mut keys: Vec<String> = keys.into_iter().collect();
        if let Offence::Syntax { kind: Syn::EntryNoComma | Syn::EntryNoValue | Syn::EntryKey, .. } = &offence {
            for k in ["one", "two"] {
                if keys.len() < 2 {
                    keys.push(k.into());
                }
            }
        }
        Case { args, keys, offence, from_macro }
    })
}

/// Compiles the declarations; which of them are rejected, with all messages.
fn check(ctx: &Ctx, name: &str, sources: &[String]) -> (bool, Vec<Vec<String>>, String) {
    let p = Project::new(ctx, name);
    p.write("Cargo.toml", &format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nmetriken = {{ path = \"{}/metriken\" }}\n[profile.dev]\ndebug = 0\nincremental = false\n[workspace]\n", repo().display()));
    p.write("src/lib.rs", &sources.concat());
    let b = p.cargo(&["check"]);
    let mut out = vec![vec![]; sources.len()];
    let mut elsewhere = b.stderr.clone();
    for e in &b.errors {
        let mut placed = false;
        if e.target == name && e.file.ends_with("src/lib.rs") {
            for l in &e.lines {
                if l.0 >= 1 && l.0 <= sources.len() {
                    out[l.0 - 1].push(e.message.clone());
                    placed = true;
                }
            }
        }
        if !placed {
            elsewhere.push_str(&e.rendered);
        }
    }
    (b.ok, out, elsewhere)
}

/// One declaration by itself, and its well-formed counterpart.
fn alone(ctx: &Ctx, c: &Case) -> CaseResult {
    let (ok, _, _) = check(ctx, "control", &[c.source(0, false)]);
    if !ok {
        // not a matter of the offence
        return Ok(());
    }
    let (ok, errors, _) = check(ctx, "single", &[c.source(0, true)]);
    if ok {
        return Err(format!("{} compiles", c.attribute(true)));
    }
    let name = c.offender();
    if !errors[0].iter().any(|m| m.contains(&name)) {
        return Err(format!("{} is rejected without naming {name:?}: {:?}", c.attribute(true), errors[0]));
    }
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule("attributes that are well-formed but for one offence: an argument repeated (same or other value, anywhere), a metadata key repeated (as identifier, raw identifier, plain, escaped or raw string, in every pairing), an unknown argument (near misses of the known ones and others), or a syntax offence (a comma, `=` or value missing, a bare value, wrong delimiters or keys in metadata, an item that is no static); each must be rejected by the compiler, for the first three with a message that names the argument or key, while the same attribute without the offence compiles. Non-trivial: the attribute has at least two arguments or keys besides the offence");
    ctx.assume("the compiler is the one installed; an unknown argument is an identifier (a keyword is refused too, but by the parser)");
    if !ctx.wants("offences") {
        return;
    }
    if let Some(c) = ctx.replay_case("offences") {
        let case: Case = serde_json::from_value(c.clone()).expect("case");
        match alone(ctx, &case) {
            Err(m) => ctx.violation("offences", c, &m),
            Ok(()) => eprintln!("[C11/offences] the replayed case holds"),
        }
        return;
    }
    let t = std::time::Instant::now();
    let trees = ctx.generate("offences", ctx.cases(2500, 6), case());
    let cases: Vec<Case> = trees.iter().map(|t| t.current()).collect();
    // controls: leave out what does not compile even without its offence
    let good: Vec<String> = cases.iter().enumerate().map(|(i, c)| c.source(i, false)).collect();
    let (ok, errors, other) = check(ctx, "control", &good);
    let usable: Vec<bool> = errors.iter().map(|e| e.is_empty()).collect();
    if !ok && usable.iter().all(|u| *u) {
        eprintln!("the control program does not build: {other}");
        std::process::exit(2);
    }
    ctx.note("controls_not_compiling", usable.iter().filter(|u| !**u).count());
    let bad: Vec<String> = cases.iter().enumerate().map(|(i, c)| c.source(i, true)).collect();
    let (_, errors, _) = check(ctx, "offences", &bad);
    let mut rechecks = 0;
    for (i, c) in cases.iter().enumerate() {
        let mut o = Obs::default();
        o.nontrivial(c.args.len() + c.keys.len() >= 3);
        o.label(match &c.offence {
            Offence::Repeat { .. } => "repeated argument",
            Offence::Key { .. } => "repeated key",
            Offence::Unknown { .. } => "unknown argument",
            Offence::Syntax { .. } => "syntax",
        });
        if let Offence::Key { first, second, .. } = &c.offence {
            o.label_if(std::mem::discriminant(first) != std::mem::discriminant(second), "key written two ways");
        }
        ctx.record("offences", c, o);
        if !usable[i] || errors[i].iter().any(|m| m.contains(&c.offender())) {
            continue;
        }
        // errors of later compiler stages do not show next to earlier ones
        rechecks += 1;
        if let Err(m) = alone(ctx, c) {
            let (c, m) = shrink(ctx, trees.into_iter().nth(i).unwrap(), m);
            ctx.violation("offences", serde_json::to_value(&c).unwrap(), &m);
            break;
        }
        if rechecks > 60 {
            break;
        }
    }
    eprintln!("[C11/offences] {} declarations in {:.1}s", cases.len(), t.elapsed().as_secs_f64());
}

fn shrink(ctx: &Ctx, mut tree: Box<dyn ValueTree<Value = Case>>, mut msg: String) -> (Case, String) {
    let mut best = tree.current();
    for _ in 0..24 {
        if !tree.simplify() {
            break;
        }
        let c = tree.current();
        match alone(ctx, &c) {
            Err(m) => {
                best = c;
                msg = m;
            }
            Ok(()) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    (best, msg)
}
