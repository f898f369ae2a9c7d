"""Fourth round: bugs that the checks of the time missed at first."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("expo", os.path.join(os.path.dirname(os.path.abspath(__file__)), "expo.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
S, T, P, V, LIB = _m.S, _m.T, _m.P, _m.V, _m.LIB
D="metriken-core/src/dynmetrics.rs"; F="metriken-core/src/formatter.rs"; PV="metriken-core/src/provide.rs"
C="metriken/src/counter.rs"; G="metriken/src/gauge.rs"; Z="metriken/src/lazy.rs"; DM="metriken-derive/src/metric.rs"
BUGS = []
def bug(**k): BUGS.append(k)
def ebug(demo, **k):
    k["expo"]=True; k["demo"]=LIB+demo; BUGS.append(k)

W="metriken-core/src/wrapper.rs"
bug(id="c10-own-first", property="C10", needs="a metric type that offers metadata of its own",
 breaks="metadata that the metric's type offers replace the declared ones",
 edits=[(W,"        <P as InjectedProvider>::provide(request);\n        self.metric.provide(request)","        self.metric.provide(request);\n        <P as InjectedProvider>::provide(request);")],
 demo='''use metriken::*; use std::sync::LazyLock; use std::collections::HashMap; struct X; static O:LazyLock<Metadata>=LazyLock::new(||HashMap::from([("a".to_string(),"own".to_string())]).into());
impl Metric for X { fn as_any(&self)->Option<&dyn std::any::Any>{Some(self)} fn value(&self)->Option<Value<'_>>{None} fn provide<'a>(&'a self, r:&mut metriken_core::Request<'a>){ r.provide_ref::<Metadata>(&O); } }
#[metric(metadata={a="declared"})] static A:X=X; fn main(){ let v=metrics(); assert_eq!(v.iter().next().unwrap().metadata().get("a"),Some("declared")); }''')
bug(id="c06-own-first", property="C06", needs="a dynamic metric of a type that offers metadata of its own",
 breaks="metadata that the metric's type offers replace the ones given to the builder",
 edits=[(D,"        self.provider.provide(request);\n        self.metric.provide(request);","        self.metric.provide(request);\n        self.provider.provide(request);")],
 demo='''use metriken::*; use std::sync::LazyLock; use std::collections::HashMap; struct X; static O:LazyLock<Metadata>=LazyLock::new(||HashMap::from([("a".to_string(),"own".to_string())]).into());
impl Metric for X { fn as_any(&self)->Option<&dyn std::any::Any>{Some(self)} fn value(&self)->Option<Value<'_>>{None} fn provide<'a>(&'a self, r:&mut metriken_core::Request<'a>){ r.provide_ref::<Metadata>(&O); } }
fn main(){ let _m=MetricBuilder::new("x").metadata("a","given").build(X); let v=metrics(); assert_eq!(v.dynamic_metrics().next().unwrap().metadata().get("a"),Some("given")); }''')
bug(id="c06-max-64", property="C06", needs="a dynamic metric with more than 64 metadata pairs",
 breaks="metadata beyond the 64th pair are dropped silently",
 edits=[(D,"        self.metadata.insert(key.into(), value.into());","        let key = key.into();\n        if self.metadata.len() < 64 || self.metadata.contains_key(&key) {\n            self.metadata.insert(key, value.into());\n        }")],
 demo='''use metriken::*; fn main(){ let mut b=MetricBuilder::new("a"); for i in 0..80 { b=b.metadata(format!("k{i}"),"v"); } let _m=b.build(Counter::new()); let v=metrics(); assert_eq!(v.dynamic_metrics().next().unwrap().metadata().len(),80); }''')
_G="                    let mut gauge = Gauge {\n                        name: metric.formatted(metriken::Format::Simple),\n                        value,\n                        metadata: HashMap::from_iter(\n                            metric\n                                .metadata()\n                                .into_iter()\n"
ebug(id="c14-md-take", property="C14", needs="a gauge with more than 32 metadata pairs",
 breaks="a snapshot copies only 32 metadata pairs of a gauge",
 edits=[(T,_G,_G+"                                .take(32)\n")],
 demo="""fn main(){ let mut b=metriken::MetricBuilder::new("a"); for i in 0..40 { b=b.metadata(format!("k{i}"),"v"); } let _m=b.build(metriken::Gauge::new()); let mut s=Snapshotter::default().snapshot(); assert_eq!(s.gauges()[0].metadata.len(),40); }""")
