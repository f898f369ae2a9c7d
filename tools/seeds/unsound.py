"""Planted bugs of C27: each demo compiles a proper program and its offending twin."""
D="metriken-core/src/dynmetrics.rs"; PV="metriken-core/src/provide.rs"; L="metriken-core/src/lib.rs"; M="metriken-core/src/metrics.rs"; MD="metriken-core/src/metadata.rs"; Z="metriken/src/lazy.rs"; W="metriken-core/src/wrapper.rs"
RUN='''cp "$here/good.rs" "$d/src/main.rs"
RUSTFLAGS= timeout 140 cargo check --offline --quiet --manifest-path "$d/Cargo.toml" >/dev/null 2>&1 || exit 1
cp "$here/bad.rs" "$d/src/main.rs"
RUSTFLAGS= timeout 140 cargo check --offline --quiet --manifest-path "$d/Cargo.toml" >/dev/null 2>&1 && exit 1
exit 0
'''
U="#![allow(warnings)]\nuse metriken::*; use std::{pin::*,rc::*,sync::*,cell::*};\n"
BUGS = []
def bug(good, bad, **k): BUGS.append(dict(k, property="C27", demo_sh=RUN, files={"good.rs": U+good+"\n", "bad.rs": U+bad+"\n"}))
bug(id="c27-dyn-static", needs="an entry of a dynamic metric kept after its view is dropped",
 breaks="the iterator over dynamic metrics and its entries may outlive the view that keeps them registered",
 edits=[(M,"    pub fn dynamic_metrics(&self) -> DynMetricsIter {\n        DynMetricsIter(self.dyn_metrics.metrics().values())","    pub fn dynamic_metrics(&self) -> DynMetricsIter<'static> {\n        // SAFETY: the registry is a static and is never dropped.\n        let metrics: &'static BTreeMap<usize, MetricEntry> =\n            unsafe { &*(self.dyn_metrics.metrics() as *const _) };\n        DynMetricsIter(metrics.values())")],
 good='fn main(){ let v=metrics(); let e=v.dynamic_metrics().next(); drop(e); drop(v); }',
 bad='fn main(){ let v=metrics(); let e=v.dynamic_metrics().next(); drop(v); println!("{:?}",e); }')
bug(id="c27-entry-clone", needs="an entry of a dynamic metric cloned and kept after the metric is dropped",
 breaks="entries can be cloned and then refer to metrics that are gone",
 edits=[(L,"/// A statically declared metric entry.\npub struct","/// A statically declared metric entry.\n#[derive(Clone)]\npub struct")],
 good='fn main(){ let v=metrics(); let e:Option<&MetricEntry>=v.iter().next(); drop(e); drop(v); }',
 bad='fn main(){ let v=metrics(); let e:Option<MetricEntry>=v.iter().next().cloned(); drop(v); println!("{:?}",e); }')
bug(id="c27-metric-static", needs="the metric of an entry kept after its view is dropped",
 breaks="the reference to an entry's metric may outlive the view and the metric",
 edits=[(L,"    pub fn metric(&self) -> &dyn Metric {","    pub fn metric(&self) -> &'static dyn Metric {")],
 good='fn main(){ let v=metrics(); let m=v.iter().next().map(|e|e.metric()); m.map(|m|m.is_enabled()); drop(v); }',
 bad='fn main(){ let v=metrics(); let m=v.iter().next().map(|e|e.metric()); drop(v); m.map(|m|m.is_enabled()); }')
bug(id="c27-ref-static", needs="attached data kept after the view is dropped",
 breaks="a reference to data attached to a metric may outlive the metric",
 edits=[(L,"    pub fn request_ref<T>(&self) -> Option<&T>\n    where\n        T: ?Sized + 'static,\n    {\n        crate::request_ref(self.metric())","    pub fn request_ref<T>(&self) -> Option<&'static T>\n    where\n        T: ?Sized + 'static,\n    {\n        crate::request_ref(unsafe { &*self.metric })")],
 good='fn main(){ let v=metrics(); let m=v.iter().next().and_then(|e|e.request_ref::<u64>()); println!("{:?}",m); drop(v); }',
 bad='fn main(){ let v=metrics(); let m=v.iter().next().and_then(|e|e.request_ref::<u64>()); drop(v); println!("{:?}",m); }')
bug(id="c27-no-pin", needs="a metric registered by plain reference and moved afterwards",
 breaks="a pinned metric can be registered without being pinned, and then moved",
 edits=[(D,"    pub fn register(self: Pin<&Self>, mut entry: MetricEntry) {","    pub fn register(&self, mut entry: MetricEntry) {")],
 good='fn main(){ let (m,e)=MetricBuilder::new("a").build_pinned(Counter::new()); let m=pin!(m); m.as_ref().register(e); }',
 bad='fn main(){ let (m,e)=MetricBuilder::new("a").build_pinned(Counter::new()); m.register(e); let m=Box::new(m); }')
bug(id="c27-deref-mut", needs="a registered metric replaced through its handle",
 breaks="a boxed dynamic metric can be changed in place while views read it",
 edits=[(D,"impl<M: Metric> Deref for DynBoxedMetric<M> {","impl<M: Metric> std::ops::DerefMut for DynBoxedMetric<M> {\n    #[inline]\n    fn deref_mut(&mut self) -> &mut Self::Target {\n        // SAFETY: nothing is moved out of the box.\n        unsafe { &mut self.metric.as_mut().get_unchecked_mut().metric.metric }\n    }\n}\n\nimpl<M: Metric> Deref for DynBoxedMetric<M> {")],
 good='fn main(){ let m=MetricBuilder::new("a").build(Counter::new()); m.increment(); }',
 bad='fn main(){ let mut m=MetricBuilder::new("a").build(Counter::new()); *m=Counter::new(); }')
bug(id="c27-lazy-value", needs="a lazy whose value may not be shared",
 breaks="a lazy of a type that is not thread-safe can be shared between threads",
 edits=[(Z,"unsafe impl<T, F: Send> Sync for Lazy<T, F> where OnceCell<T>: Sync {}","unsafe impl<T: Send, F: Send> Sync for Lazy<T, F> {}")],
 good='static L: Lazy<Mutex<u8>> = Lazy::new(||Mutex::new(1)); fn main(){ L.lock(); }',
 bad='static L: Lazy<Cell<u8>> = Lazy::new(||Cell::new(1)); fn main(){ L.set(2); }')
bug(id="c27-lazy-init", needs="a lazy whose initialiser may not be sent",
 breaks="a lazy can be shared between threads with an initialiser that may not leave its thread",
 edits=[(Z,"unsafe impl<T, F: Send> Sync for Lazy<T, F> where OnceCell<T>: Sync {}","unsafe impl<T, F> Sync for Lazy<T, F> where OnceCell<T>: Sync {}")],
 good='fn s<T:Sync>(_:&T){} fn main(){ let r=Arc::new(1u8); s(&Lazy::<u8,_>::new(move||*r)); }',
 bad='fn s<T:Sync>(_:&T){} fn main(){ let r=Rc::new(1u8); s(&Lazy::<u8,_>::new(move||*r)); }')
bug(id="c27-provide-cell", needs="attached data that may be sent but not shared",
 breaks="data that is not thread-safe can be attached to a metric and reached from every thread",
 edits=[(D,"    pub fn provide<T: Send + Sync + 'static>(mut self, value: T) -> Self {","    pub fn provide<T: Send + 'static>(mut self, value: T) -> Self {"),
        (PV,"pub(crate) trait Provide: Any + Send + Sync + 'static {","// SAFETY: provided values are only ever handed out by shared reference.\nunsafe impl Sync for ProviderMap {}\n\npub(crate) trait Provide: Any + Send + 'static {"),
        (PV,"impl<T: Any + Send + Sync> Provide for T {","impl<T: Any + Send> Provide for T {")],
 good='fn main(){ MetricBuilder::new("a").provide(Mutex::new(1u8)).build(Counter::new()); }',
 bad='fn main(){ MetricBuilder::new("a").provide(Cell::new(1u8)).build(Counter::new()); }')
bug(id="c27-request-local", needs="a metric that provides a reference to a local",
 breaks="a metric may provide a reference to something that is gone when the request returns",
 edits=[(PV,"    pub fn provide_ref_with<T: ?Sized + 'static>(\n        &mut self,\n        fulfil: impl FnOnce() -> &'a T,\n    ) -> &mut Self {\n        self.provide_with::<tags::Ref<tags::MaybeSizedValue<T>>>(fulfil)","    pub fn provide_ref_with<'b, T: ?Sized + 'static>(\n        &mut self,\n        fulfil: impl FnOnce() -> &'b T,\n    ) -> &mut Self {\n        self.provide_with::<tags::Ref<tags::MaybeSizedValue<T>>>(|| unsafe {\n            &*(fulfil() as *const T)\n        })")],
 good='struct M(String); impl Metric for M { fn as_any(&self)->Option<&dyn std::any::Any>{None} fn value(&self)->Option<Value<\'_>>{None} fn provide<\'a>(&\'a self,r:&mut metriken_core::Request<\'a>){ r.provide_ref_with::<str>(||&self.0); } } fn main(){}',
 bad='struct M(String); impl Metric for M { fn as_any(&self)->Option<&dyn std::any::Any>{None} fn value(&self)->Option<Value<\'_>>{None} fn provide<\'a>(&\'a self,r:&mut metriken_core::Request<\'a>){ let x=String::new(); r.provide_ref_with::<str>(||&x); } } fn main(){}')
