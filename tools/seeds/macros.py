A="metriken-derive/src/args.rs"; R="metriken-derive/src/metric.rs"; L="metriken-core/src/lib.rs"
BUGS=[]
def bug(**k): BUGS.append(k)
DESC='''        .description
        .map(|SingleArg { value, .. }| parse_quote!(Some(#value)))
'''
# shell: reject SRC... = each file must fail to compile, pass FILE = must compile
REJ='''cp "$here/good.rs" "$d/src/main.rs"
RUSTFLAGS= timeout 140 cargo check --offline --quiet --manifest-path "$d/Cargo.toml" >/dev/null 2>&1 || exit 1
cp "$here/bad.rs" "$d/src/main.rs"
RUSTFLAGS= timeout 140 cargo check --offline --quiet --manifest-path "$d/Cargo.toml" >"$d/out" 2>&1 && exit 1
grep -q "@WHAT@" "$d/out" || exit 1
exit 0
'''
def rej(what): return REJ.replace("@WHAT@",what)

bug(id="c10-renamed", property="C10", needs="a dependency on metriken under another name",
 breaks="the macro always refers to the crate as `metriken`, so declarations fail to compile in a crate that renamed it",
 edits=[(R,'''                    FoundCrate::Name(name) => {
                        assert_ne!(name, "");
                        Ident::new(&name, Span::call_site()).into()
                    }
                    FoundCrate::Itself => parse_quote! { metriken },''','''                    FoundCrate::Name(name) if name.ends_with("metriken") => {
                        Ident::new(&name, Span::call_site()).into()
                    }
                    FoundCrate::Name(_) | FoundCrate::Itself => parse_quote! { metriken },''')],
 demo_sh='''sed -i 's|^metriken = {.*|mk = { package = "metriken", path = "'"$repo"'/metriken" }|' "$d/Cargo.toml"
cp "$here/demo.rs" "$d/src/main.rs"
RUSTFLAGS= timeout 250 cargo run --offline --quiet --manifest-path "$d/Cargo.toml" 2>&1 || exit 1
''',
 demo='''#[mk::metric(name="a")] static A: mk::Counter = mk::Counter::new();
fn main(){ A.increment(); assert_eq!(mk::metrics().iter().next().unwrap().name(),"a"); }''')
bug(id="c10-empty-name", property="C10", needs="an explicitly empty name",
 breaks="an empty declared name is replaced by the static's identifier",
 edits=[(R,"args.name.map(|name| name.value).unwrap_or_else(|| {","args\n        .name\n        .map(|name| name.value)\n        .filter(|name| !matches!(name, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) if s.value().is_empty()))\n        .unwrap_or_else(|| {")],
 demo='''use metriken::*; #[metric(name="")] static A:Counter=Counter::new(); fn main(){ assert_eq!(metrics().iter().next().unwrap().name(),""); }''')
bug(id="c10-desc-trim", property="C10", needs="a description literal with surrounding white space",
 breaks="string literal descriptions are trimmed",
 edits=[(R,DESC,'''        .description
        .map(|SingleArg { value, .. }| match value {
            // doc comments usually come with a leading space
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => {
                let s = syn::LitStr::new(s.value().trim(), s.span());
                parse_quote!(Some(#s))
            }
            value => parse_quote!(Some(#value)),
        })
''')],
 demo='''use metriken::*; #[metric(description=" two words ")] static A:Counter=Counter::new(); fn main(){ assert_eq!(metrics().iter().next().unwrap().description(),Some(" two words ")); }''')
bug(id="c10-empty-value", property="C10", needs="a metadata entry with an empty value",
 breaks="metadata entries whose value is the empty string literal are left out",
 edits=[(R,"        .into_values()\n        .map(|entry| {","        .into_values()\n        .filter(|entry| {\n            !matches!(&entry.value, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) if s.value().is_empty())\n        })\n        .map(|entry| {")],
 demo='''use metriken::*; #[metric(metadata={a="",b="x"})] static A:Counter=Counter::new(); fn main(){ let v=metrics(); let e=v.iter().next().unwrap(); assert_eq!(e.metadata().get("a"),Some("")); assert_eq!(e.metadata().iter().count(),2); }''')
bug(id="c10-key-case", property="C10", needs="a metadata key written as a string with a hyphen or capital letters",
 breaks="string metadata keys are normalised like identifiers, so the declared key is not the registered one",
 edits=[(A,"            Self::String(string) => string.clone(),\n        }\n    }\n}\n\nimpl Parse for MetadataName","            Self::String(string) => syn::LitStr::new(&string.value().replace('-', \"_\"), string.span()),\n        }\n    }\n}\n\nimpl Parse for MetadataName")],
 demo='''use metriken::*; #[metric(metadata={"a-b"="x"})] static A:Counter=Counter::new(); fn main(){ let v=metrics(); let e=v.iter().next().unwrap(); assert_eq!(e.metadata().get("a-b"),Some("x")); }''')
bug(id="c10-desc-concat", property="C10", needs="a description given by a constant rather than a literal",
 breaks="a description which is not a literal does not compile any more",
 edits=[(R,"parse_quote!(Some(#value))","parse_quote!(Some(concat!(#value)))")],
 demo='''use metriken::*; const D:&str="text"; #[metric(description=D)] static A:Counter=Counter::new(); fn main(){ assert_eq!(metrics().iter().next().unwrap().description(),Some("text")); }''')
bug(id="c10-crate-fmt", property="C10", needs="an explicit formatter together with an explicit crate path",
 breaks="with `crate = ...` given, the declared formatter is dropped in favour of the default",
 edits=[(R,"    let krate = args.crate_path();\n","    if args.krate.is_some() {\n        // paths are resolved from the given crate\n        args.formatter = None;\n    }\n    let krate = args.crate_path();\n")],
 demo='''use metriken::*; fn f(m:&MetricEntry,_:Format)->String{ format!("<{}>",m.name()) } #[metric(crate=metriken,formatter=f)] static A:Counter=Counter::new(); fn main(){ let v=metrics(); assert_eq!(v.iter().next().unwrap().formatted(Format::Simple),"<A>"); }''')
bug(id="c10-default-crate", property="C10", needs="a crate that reaches metriken only through a re-export, and omits the formatter",
 breaks="the default formatter is named through the crate `metriken` whatever `crate` says",
 edits=[(R,"parse_quote!(#krate::default_formatter)","parse_quote!(::metriken::default_formatter)")],
 demo_sh='''mkdir -p "$d/re/src"; printf '[package]\\nname="re"\\nversion="0.0.0"\\nedition="2021"\\n[dependencies]\\nmetriken={path="%s/metriken"}\\n' "$repo" > "$d/re/Cargo.toml"; echo 'pub use metriken;' > "$d/re/src/lib.rs"
sed -i 's|^metriken = {.*|re = { path = "re" }|; /^metriken-core/d' "$d/Cargo.toml"
cp "$here/demo.rs" "$d/src/main.rs"
RUSTFLAGS= timeout 250 cargo run --offline --quiet --manifest-path "$d/Cargo.toml" 2>&1 || exit 1
''',
 demo='''use re::metriken::*; #[metric(crate=re::metriken)] static A:Counter=Counter::new(); fn main(){ let v=metrics(); assert_eq!(v.iter().next().unwrap().formatted(Format::Simple),"A"); }''')
bug(id="c10-vis", property="C10", needs="a private static used from outside its module, or a restricted visibility",
 breaks="a static's restricted visibility is widened to pub",
 edits=[(R,"    Ok(quote! { #item })","    if !matches!(item.vis, syn::Visibility::Inherited) {\n        item.vis = parse_quote!(pub);\n    }\n\n    Ok(quote! { #item })")],
 demo_sh=REJ.replace("@WHAT@","private"), files={"good.rs":"use metriken::*; mod m { use metriken::*; #[metric] pub(crate) static A:Counter=Counter::new(); } fn main(){ m::A.increment(); }",
  "bad.rs":"mod o { pub mod m { use metriken::*; #[metric] pub(in crate::o) static A:Counter=Counter::new(); } } fn main(){ o::m::A.increment(); }"})

bug(id="c11-crate-twice", property="C11", needs="`crate` given twice",
 breaks="a repeated `crate` argument overrides the first without a word",
 edits=[(R,"                    args.krate.insert_or_duplicate(krate)?\n","                    args.krate = Some(krate);\n")],
 demo_sh=rej("duplicate"), files={"good.rs":"use metriken::*; #[metric(crate=metriken)] static A:Counter=Counter::new(); fn main(){}","bad.rs":"use metriken::*; #[metric(crate=nowhere,name=\"a\",crate=metriken)] static A:Counter=Counter::new(); fn main(){}"})
bug(id="c11-same-value", property="C11", needs="a metadata key given twice with the same value",
 breaks="an identical repeated metadata entry is accepted",
 edits=[(R,"            Entry::Occupied(_) => {\n","            Entry::Occupied(old)\n                if quote::ToTokens::to_token_stream(&old.get().value).to_string()\n                    == quote::ToTokens::to_token_stream(&entry.value).to_string() => {}\n            Entry::Occupied(_) => {\n")],
 demo_sh=rej("duplicate"), files={"good.rs":"use metriken::*; #[metric(metadata={a=\"1\",b=\"1\"})] static A:Counter=Counter::new(); fn main(){}","bad.rs":"use metriken::*; #[metric(metadata={a=\"1\",\"a\"=\"1\"})] static A:Counter=Counter::new(); fn main(){}"})
bug(id="c11-unit", property="C11", needs="an unknown argument that looks like a private or future one",
 breaks="arguments the attribute does not know are parsed and ignored when they start with an underscore",
 edits=[(R,"                _ => {\n                    return Err(syn::Error::new(","                other if other.starts_with('_') => {\n                    let _: SingleArg<Expr> = input.parse()?;\n                }\n                _ => {\n                    return Err(syn::Error::new(")],
 demo_sh=rej("unknown"), files={"good.rs":"use metriken::*; #[metric(name=\"a\")] static A:Counter=Counter::new(); fn main(){}","bad.rs":"use metriken::*; #[metric(_name=\"a\")] static A:Counter=Counter::new(); fn main(){}"})
bug(id="c11-empty-first", property="C11", needs="`metadata` given twice, the first time empty",
 breaks="an empty metadata argument is replaced by a later one",
 edits=[(R,'''                "metadata" => args.metadata.insert_or_duplicate(input.parse()?)?,''','''                "metadata" => {
                    if args.metadata.as_ref().is_some_and(|m| m.value.entries.is_empty()) {
                        args.metadata = None;
                    }
                    args.metadata.insert_or_duplicate(input.parse()?)?
                }''')],
 demo_sh=rej("duplicate"), files={"good.rs":"use metriken::*; #[metric(metadata={})] static A:Counter=Counter::new(); fn main(){}","bad.rs":"use metriken::*; #[metric(metadata={},metadata={a=\"1\"})] static A:Counter=Counter::new(); fn main(){}"})
bug(id="c11-case", property="C11", needs="an argument in another case",
 breaks="argument names are matched whatever their case, so `Name` or `NAME` count as known",
 edits=[(R,"            match &*arg.to_string() {","            match &*arg.to_string().to_lowercase() {")],
 demo_sh=rej("unknown"), files={"good.rs":"use metriken::*; #[metric(name=\"a\")] static A:Counter=Counter::new(); fn main(){}","bad.rs":"use metriken::*; #[metric(Name=\"a\")] static A:Counter=Counter::new(); fn main(){}"})
bug(id="c11-key-spelling", property="C11", needs="one metadata key written as an identifier and as a string",
 breaks="an identifier key and an equal string key are not seen as the same; the later one wins",
 edits=[(R,"        match self.0.entry(entry.name.value()) {","        match self.0.entry(quote::ToTokens::to_token_stream(&entry.name).to_string()) {"),
        (R,"    let attrs: Vec<_> = metadata\n        .0\n        .into_values()\n","    let entries: BTreeMap<_, _> = metadata\n        .0\n        .into_values()\n        .map(|entry| (entry.name.value(), entry))\n        .collect();\n    let attrs: Vec<_> = entries\n        .into_values()\n")],
 demo_sh=rej("duplicate"), files={"good.rs":"use metriken::*; #[metric(metadata={a=\"1\",\"b\"=\"2\"})] static A:Counter=Counter::new(); fn main(){}","bad.rs":"use metriken::*; #[metric(metadata={a=\"1\",\"a\"=\"2\"})] static A:Counter=Counter::new(); fn main(){}"})
bug(id="c11-trailing", property="C11", needs="stray tokens after the last argument",
 breaks="a missing comma between arguments is accepted",
 edits=[(R,"                let _: Token![,] = input.parse()?;","                let _: Option<Token![,]> = input.parse()?;\n                let _: Option<Token![,]> = input.parse()?;")],
 demo_sh=rej("expected"), files={"good.rs":"use metriken::*; #[metric(name=\"a\",description=\"b\")] static A:Counter=Counter::new(); fn main(){}","bad.rs":"use metriken::*; #[metric(name=\"a\" description=\"b\")] static A:Counter=Counter::new(); fn main(){}"})
