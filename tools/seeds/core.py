D="metriken-core/src/dynmetrics.rs"; M="metriken-core/src/metrics.rs"; MD="metriken-core/src/metadata.rs"
L="metriken-core/src/lib.rs"; F="metriken-core/src/formatter.rs"; P="metriken-core/src/provide.rs"
C="metriken/src/counter.rs"; G="metriken/src/gauge.rs"; H="metriken/src/histogram.rs"; Z="metriken/src/lazy.rs"
BUGS=[]
def bug(**k): BUGS.append(k)

bug(id="c01-saturate", property="C01", needs="an addition that overflows 64 bits",
 breaks="Counter::add saturates at u64::MAX instead of wrapping",
 edits=[(C,"self.0.fetch_add(value, Ordering::Relaxed)",
 "self.0\n            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |v| {\n                Some(v.saturating_add(value))\n            })\n            .unwrap_or_else(|v| v)")],
 demo='''fn main(){ let c=metriken::Counter::with_value(u64::MAX-1); c.add(5); assert_eq!(c.value(),3); }''')
bug(id="c01-gauge-min", property="C01", needs="subtracting i64::MIN from a gauge",
 breaks="Gauge::sub negates its operand, which overflows for i64::MIN",
 edits=[(G,"self.0.fetch_sub(value, Ordering::Relaxed)","self.add(-value)")],
 demo='''fn main(){ let c=metriken::Gauge::new(); c.sub(i64::MIN); assert_eq!(c.value(),i64::MIN); }''')
bug(id="c01-set-same", property="C01", needs="reset of a gauge whose value has the sign bit set",
 breaks="Gauge::reset returns the magnitude-preserving positive part: an optimised fetch_and variant keeps the sign bit",
 edits=[(G,"self.set(0)","self.0.fetch_and(i64::MIN, Ordering::Relaxed)")],
 demo='''fn main(){ let c=metriken::Gauge::with_value(-7); assert_eq!(c.reset(),-7); assert_eq!(c.value(),0); }''')

bug(id="c02-gauge-set", property="C02", needs="a set racing with an add on one gauge",
 breaks="Gauge::set is a load followed by a store, so an update between the two is lost and its value returned twice",
 edits=[(G,"self.0.swap(value, Ordering::Relaxed)","let previous = self.value();\n        self.0.store(value, Ordering::Relaxed);\n        previous")],
 demo='''use std::sync::atomic::*;
fn main(){ for _ in 0..200 {
  // each thread takes everything there is; nothing may be taken twice or lost
  static G: metriken::Gauge = metriken::Gauge::new(); G.set(0);
  let taken=AtomicI64::new(0);
  std::thread::scope(|s|{ for _ in 0..4 { s.spawn(||for _ in 0..20000 { G.add(1); }); }
    for _ in 0..4 { s.spawn(||for _ in 0..5000 { taken.fetch_add(G.set(0),Ordering::Relaxed); }); } });
  assert_eq!(taken.load(Ordering::Relaxed)+G.value(),80000);
 } }''')
bug(id="c02-give-up", property="C02", needs="eight failed compare-exchange attempts in a row (heavy contention)",
 breaks="Counter::add falls back to a plain store after a bounded number of retries and loses updates",
 edits=[(C,"self.0.fetch_add(value, Ordering::Relaxed)",'''let mut current = self.0.load(Ordering::Relaxed);
        for _ in 0..4 {
            match self.0.compare_exchange_weak(
                current,
                current.wrapping_add(value),
                Ordering::Relaxed,
                Ordering::Relaxed,
            ) {
                Ok(previous) => return previous,
                Err(actual) => current = actual,
            }
        }
        self.0.store(current.wrapping_add(value), Ordering::Relaxed);
        current''')],
 demo='''fn main(){ for _ in 0..50 { let c=metriken::Counter::new();
  std::thread::scope(|s|{ for _ in 0..8 { s.spawn(||for _ in 0..100000 { c.increment(); }); } });
  assert_eq!(c.value(),800000); } }''')
bug(id="c02-batch", property="C02", needs="two threads racing exactly when the counter crosses a multiple of 2^16",
 breaks="Counter::add takes a non-atomic path when the sum carries into the upper bits",
 edits=[(C,"self.0.fetch_add(value, Ordering::Relaxed)",'''let current = self.0.load(Ordering::Relaxed);
        if current >> 8 != current.wrapping_add(value) >> 8 {
            // carries into the next page
            self.0.store(current.wrapping_add(value), Ordering::Relaxed);
            return current;
        }
        self.0.fetch_add(value, Ordering::Relaxed)''')],
 demo='''fn main(){ for _ in 0..100 { let c=metriken::Counter::new();
  std::thread::scope(|s|{ for _ in 0..8 { s.spawn(||for _ in 0..100000 { c.increment(); }); } });
  assert_eq!(c.value(),800000); } }''')

bug(id="c03-keep-first", property="C03", needs="registering one metric again under another name",
 breaks="re-registration keeps the first entry instead of the latest one",
 edits=[(D,"self.metrics.insert(Self::key_for(&entry), entry);","self.metrics.entry(Self::key_for(&entry)).or_insert(entry);")],
 demo='''use metriken::*; use std::pin::Pin;
fn main(){ let (m,e)=MetricBuilder::new("a").build_pinned(Counter::new()); let p=unsafe{Pin::new_unchecked(&m)};
 p.register(e); p.register(MetricBuilder::new("b").into_entry());
 assert_eq!(metrics().dynamic_metrics().next().unwrap().name(),"b"); }''')
bug(id="c03-disabled-stays", property="C03", needs="dropping a dynamic metric that is disabled at that moment (an unused lazy one)",
 breaks="a disabled metric is not unregistered when dropped and stays listed, dangling",
 edits=[(D,"        // If this metric has not been registered then nothing will be removed.\n        unregister(&self.metric);",
 "        // If this metric has not been registered then nothing will be removed.\n        if self.metric.is_enabled() {\n            unregister(&self.metric);\n        }")],
 demo='''use metriken::*;
fn main(){ let m=MetricBuilder::new("a").build(Lazy::<Counter>::new(Counter::new)); drop(m); assert_eq!(metrics().dynamic_metrics().len(),0); }''')
bug(id="c03-page-key", property="C03", needs="two pinned metrics closer than 16 bytes apart (zero-sized or packed neighbours) - or here, within one 64-byte line",
 breaks="the registry key drops the low address bits, so metrics within one cache line replace each other",
 edits=[(D,"entry.metric() as *const dyn Metric as *const () as usize","(entry.metric() as *const dyn Metric as *const () as usize) >> 6"),
        (D,"let key = metric as *const () as usize;","let key = (metric as *const () as usize) >> 6;")],
 demo='''use metriken::*; use std::pin::Pin;
fn main(){ let v:Vec<_>=(0..8).map(|_|MetricBuilder::new("a").build_pinned(Counter::new())).collect();
 let (ms,es):(Vec<_>,Vec<_>)=v.into_iter().unzip();
 let ms=ms.into_boxed_slice();
 for (m,e) in ms.iter().zip(es){ unsafe{Pin::new_unchecked(m)}.register(e); }
 assert_eq!(metrics().dynamic_metrics().len(),8); }''')
bug(id="c03-empty-desc", property="C03", needs="an empty description on a dynamic metric",
 breaks="an empty description is turned into none",
 edits=[(D,"self.desc = Some(desc.into());","self.desc = Some(desc.into()).filter(|desc| !desc.is_empty());")],
 demo='''use metriken::*;
fn main(){ let _m=MetricBuilder::new("a").description("").build(Counter::new()); assert_eq!(metrics().dynamic_metrics().next().unwrap().description(),Some("")); }''')

bug(id="c04-deferred", property="C04", needs="dropping a metric while another thread holds a view",
 breaks="unregistering does not wait for views: it is queued and done by the next registration, so later views contain destroyed metrics",
 edits=[(D,"    REGISTRY.write().unregister(metric);",'''    static PENDING: parking_lot::Mutex<Vec<usize>> = parking_lot::const_mutex(Vec::new());
    let key = metric as *const () as usize;
    match REGISTRY.try_write() {
        Some(mut registry) => {
            registry.unregister(metric);
            for key in PENDING.lock().drain(..) {
                registry.metrics.remove(&key);
            }
        }
        None => PENDING.lock().push(key),
    }''')],
 demo='''use metriken::*; use std::sync::mpsc::channel;
fn main(){ let (m,e)=MetricBuilder::new("a").build_pinned(Counter::new()); let m=Box::pin(m); m.as_ref().register(e);
 let view=metrics(); let (tx,rx)=channel(); let t=std::thread::spawn(move||{ drop(m); tx.send(()).unwrap(); });
 let early=rx.recv_timeout(std::time::Duration::from_millis(1500)).is_ok(); drop(view); t.join().unwrap();
 assert!(!early,"dropped under a view"); assert_eq!(metrics().dynamic_metrics().len(),0); }''')
bug(id="c04-reregister-gap", property="C04", needs="a view taken between the two halves of a re-registration",
 breaks="re-registering removes the old entry and inserts the new one under two separate locks, so a metric registered all along is missing from views in between",
 edits=[(D,"    REGISTRY.write().register(entry);","    unregister(entry.metric());\n    REGISTRY.write().register(entry);")],
 demo='''use metriken::*; use std::sync::atomic::*;
fn main(){ static STOP:AtomicBool=AtomicBool::new(false);
 let (m,e)=MetricBuilder::new("a").build_pinned(Counter::new()); let m=Box::pin(m); m.as_ref().register(e);
 let missing=std::thread::scope(|s|{ let rs:Vec<_>=(0..4).map(|_|s.spawn(||{ let mut n=0; for _ in 0..2000000u32 { if metrics().dynamic_metrics().len()!=1 {n+=1; break;} } n })).collect();
  s.spawn(||while !STOP.load(Ordering::Relaxed){ m.as_ref().register(MetricBuilder::new("b").into_entry()); });
  let n:i32=rs.into_iter().map(|r|r.join().unwrap()).sum(); STOP.store(true,Ordering::Relaxed); n });
 assert_eq!(missing,0); }''')

bug(id="c05-nth-static", property="C05", needs="skipping past all static metrics with nth and then continuing",
 breaks="nth beyond the static half leaves the static half unvisited, so entries come again",
 edits=[(M,"self.sm.nth(n).or_else(|| self.dm.nth(n - len))","if n < len {\n            self.sm.nth(n)\n        } else {\n            self.dm.nth(n - len)\n        }")],
 demo='''use metriken::*; #[metric] static A:Counter=Counter::new();
fn main(){ let _m=MetricBuilder::new("a").build(Counter::new()); let _n=MetricBuilder::new("b").build(Counter::new());
 let v=metrics(); let mut i=v.iter(); assert!(i.nth(1).is_some()); assert_eq!(i.count(),1); }''')
bug(id="c05-rfold", property="C05", needs="a reverse fold over static and dynamic metrics",
 breaks="rfold visits the static half before the dynamic one",
 edits=[(M,"        let init = self.dm.rfold(init, &mut f);\n        self.sm.rfold(init, f)","        let init = self.sm.rfold(init, &mut f);\n        self.dm.rfold(init, f)")],
 demo='''use metriken::*; #[metric] static A:Counter=Counter::new();
fn main(){ let _m=MetricBuilder::new("d").build(Counter::new());
 let v=metrics(); let f:Vec<_>=v.iter().map(|e|e.name().to_string()).collect(); let mut r=v.iter().rfold(vec![],|mut a,e|{a.push(e.name().to_string());a}); r.reverse(); assert_eq!(f,r); }''')
bug(id="c05-dyn-nth-back", property="C05", needs="nth_back on the dynamic iterator with a non-zero distance",
 breaks="DynMetricsIter::nth_back skips from the front",
 edits=[(M,"        self.0.nth_back(n)\n","        if n > 0 {\n            self.0.nth(n - 1)?;\n        }\n        self.0.next_back()\n")],
 demo='''use metriken::*;
fn main(){ let _v:Vec<_>=(0..4).map(|i|MetricBuilder::new(format!("{i}")).build(Counter::new())).collect();
 let v=metrics(); let all:Vec<_>=v.dynamic_metrics().map(|e|e.name().to_string()).collect();
 let mut i=v.dynamic_metrics(); assert_eq!(i.nth_back(1).unwrap().name(),all[2]); }''')

bug(id="c06-first-wins", property="C06", needs="giving one key twice while building",
 breaks="the first value given for a key wins",
 edits=[(D,"self.metadata.insert(key.into(), value.into());","self.metadata.entry(key.into()).or_insert(value.into());")],
 demo='''use metriken::*;
fn main(){ let _m=MetricBuilder::new("a").metadata("k","1").metadata("k","2").build(Counter::new()); assert_eq!(metrics().dynamic_metrics().next().unwrap().metadata().get("k"),Some("2")); }''')
bug(id="c06-empty-value", property="C06", needs="a key whose value is empty",
 breaks="contains_key is false for keys with an empty value",
 edits=[(MD,"Impl::Dynamic(map) => map.contains_key(key),","Impl::Dynamic(map) => map.get(key).is_some_and(|value| !value.is_empty()),")],
 demo='''use metriken::*;
fn main(){ let _m=MetricBuilder::new("a").metadata("k","").build(Counter::new()); assert!(metrics().dynamic_metrics().next().unwrap().metadata().contains_key("k")); }''')
bug(id="c06-static-nth", property="C06", needs="nth on the metadata iterator of a statically declared metric",
 breaks="the static metadata iterator's nth is off by one",
 edits=[(MD,"IterImpl::Static(iter) => iter.nth(n).map(Self::map_entries),","IterImpl::Static(iter) => iter.skip(n + n / 2).next().map(Self::map_entries),")],
 demo='''use metriken::*; #[metric(metadata={a="1",b="2",c="3",d="4"})] static A:Counter=Counter::new();
fn main(){ let v=metrics(); let e=v.iter().next().unwrap(); let all:Vec<_>=e.metadata().iter().collect(); assert_eq!(e.metadata().iter().nth(2),all.get(2).copied()); }''')

bug(id="c07-empty-label", property="C07", needs="a label with an empty value next to another label",
 breaks="labels with empty values are left out of the Prometheus rendering",
 edits=[(F,"                .metadata()\n                .iter()\n","                .metadata()\n                .iter()\n                .filter(|(_, value)| !value.is_empty())\n")],
 demo='''use metriken::*;
fn main(){ let _m=MetricBuilder::new("a").metadata("k","").build(Counter::new()); assert_eq!(metrics().dynamic_metrics().next().unwrap().formatted(Format::Prometheus),"a{k=\\"\\"}"); }''')
bug(id="c07-disabled", property="C07", needs="formatting a metric that is disabled and has a custom formatter",
 breaks="disabled metrics are formatted by the default formatter",
 edits=[(L,"            .request_value::<crate::wrapper::FormattingFn>()\n","            .request_value::<crate::wrapper::FormattingFn>()\n            .filter(|_| self.is_enabled())\n")],
 demo='''use metriken::*; fn f(_:&MetricEntry,_:Format)->String{"custom".into()}
#[metric(formatter=&f)] static A:Lazy<Counter>=Lazy::new(Counter::new);
fn main(){ let v=metrics(); assert_eq!(v.iter().next().unwrap().formatted(Format::Simple),"custom"); }'''.replace("&f","f"))
bug(id="c07-null-format", property="C07", needs="the simple format of a metric with metadata whose name contains a brace",
 breaks="the simple format cuts the name at the first brace",
 edits=[(F,"        _ => metric.name().to_string(),","        _ => metric.name().split('{').next().unwrap_or_default().to_string(),")],
 demo='''use metriken::*;
fn main(){ let _m=MetricBuilder::new("a{b}").build(Counter::new()); assert_eq!(metrics().dynamic_metrics().next().unwrap().formatted(Format::Simple),"a{b}"); }''')

bug(id="c08-last-wins", property="C08", needs="a metric that provides two data of one type",
 breaks="a later datum replaces an earlier one",
 edits=[(P,"if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {","if let Some(res) = self.0.downcast_mut::<I>() {")],
 demo='''use metriken::*; use metriken_core::Request; struct M; impl Metric for M{ fn as_any(&self)->Option<&dyn std::any::Any>{None} fn value(&self)->Option<Value<'_>>{None}
 fn provide<'a>(&'a self,r:&mut Request<'a>){ r.provide_value(1u8).provide_value(2u8); } }
fn main(){ assert_eq!(metriken_core::request_value::<u8>(&M),Some(1)); }''')
bug(id="c08-own-first", property="C08", needs="a metric that provides by reference a type also attached by the builder",
 breaks="the metric's own datum precedes the one attached while building",
 edits=[(D,"        self.provider.provide(request);\n        self.metric.provide(request);","        self.metric.provide(request);\n        self.provider.provide(request);")],
 demo='''use metriken::*; use metriken_core::Request; struct M; static O:u8=1; impl Metric for M{ fn as_any(&self)->Option<&dyn std::any::Any>{None} fn value(&self)->Option<Value<'_>>{None}
 fn provide<'a>(&'a self,r:&mut Request<'a>){ r.provide_ref(&O); } }
fn main(){ let _m=MetricBuilder::new("a").provide(2u8).build(M); assert_eq!(metrics().dynamic_metrics().next().unwrap().request_ref::<u8>(),Some(&2)); }''')
bug(id="c08-would-be", property="C08", needs="asking whether a request would be satisfied after it already was",
 breaks="the would-be-satisfied queries stay true after the request was fulfilled",
 edits=[(P,"matches!(self.0.downcast::<I>(), Some(TaggedOption(None)))","self.0.downcast::<I>().is_some()")],
 demo='''use metriken::*; use metriken_core::Request; struct M; impl Metric for M{ fn as_any(&self)->Option<&dyn std::any::Any>{None} fn value(&self)->Option<Value<'_>>{None}
 fn provide<'a>(&'a self,r:&mut Request<'a>){ r.provide_value(1u8); if r.would_be_satisfied_by_value_of::<u8>() { panic!("already satisfied"); } } }
fn main(){ assert_eq!(metriken_core::request_value::<u8>(&M),Some(1)); }''')

bug(id="c09-race", property="C09", needs="two threads racing on first use",
 breaks="the initialiser is taken outside the once-cell, so a losing thread panics as poisoned",
 edits=[(Z,'''        this.cell.get_or_init(|| {
            let func = this
                .func
                .take()
                .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            func()
        })''','''        if let Some(value) = this.cell.get() {
            return value;
        }
        let func = this
            .func
            .take()
            .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));
        let value = func();
        this.cell.get_or_init(|| value)''')],
 demo='''use metriken::*;
fn main(){ for _ in 0..20000 { let l:Lazy<Counter>=Lazy::new(Counter::new); let b=std::sync::Barrier::new(4);
 std::thread::scope(|s|{ for _ in 0..4 { s.spawn(||{ b.wait(); l.increment(); }); } }); assert_eq!(Lazy::force(&l).value(),4); } }''')
bug(id="c09-enabled-after-panic", property="C09", needs="an initialiser that panics",
 breaks="a lazy metric whose initialiser panicked reports itself enabled although it has no value",
 edits=[(Z,"    fn is_enabled(&self) -> bool {\n        Lazy::get(self).is_some()","    fn is_enabled(&self) -> bool {\n        let func = self.func.take();\n        let pending = func.is_some();\n        self.func.set(func);\n        !pending")],
 demo='''use metriken::*;
fn main(){ let l:Lazy<Counter>=Lazy::new(||panic!("x")); let _=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||l.increment())); assert!(!Metric::is_enabled(&l)); }''')

bug(id="c12-first-use", property="C12", needs="two threads making the first recording at once",
 breaks="the first recording goes to a fresh histogram that is then published; a loser's recording is dropped",
 edits=[(H,"        self.get_or_init().increment(value)",'''        match self.inner.get() {
            Some(histogram) => histogram.increment(value),
            None => {
                let histogram = ::histogram::AtomicHistogram::with_config(&self.config);
                histogram.increment(value)?;
                let _ = self.inner.set(histogram);
                Ok(())
            }
        }'''),(H,'''    fn get_or_init(&self) -> &::histogram::AtomicHistogram {
        self.inner
            .get_or_init(|| ::histogram::AtomicHistogram::with_config(&self.config))
    }
''','')],
 demo='''use metriken::*;
fn main(){ for _ in 0..20000 { let h=AtomicHistogram::new(2,8); let b=std::sync::Barrier::new(4);
 std::thread::scope(|s|{ for _ in 0..4 { s.spawn(||{ b.wait(); h.increment(3).unwrap(); }); } });
 assert_eq!(h.load().unwrap().as_slice().iter().sum::<u64>(),4); } }''')
bug(id="c12-load-resets", property="C12", needs="loading twice with nothing recorded in between",
 breaks="load drains the counts",
 edits=[(H,"self.inner.get().map(|h| h.load())","self.inner.get().map(|h| h.drain())")],
 demo='''use metriken::*;
fn main(){ let h=AtomicHistogram::new(2,8); h.increment(3).unwrap(); h.load(); assert_eq!(h.load().unwrap().as_slice().iter().sum::<u64>(),1); }''')

bug(id="c13-short", property="C13", needs="an update shorter than the configuration",
 breaks="a shorter update is accepted and mixed with the previous counts",
 edits=[(H,"if data.len() != self.config.total_buckets() {","if data.len() > self.config.total_buckets() {"),
        (H,"buckets.copy_from_slice(data);","buckets[..data.len()].copy_from_slice(data);")],
 demo='''use metriken::*;
fn main(){ let h=RwLockHistogram::new(2,8); assert!(h.update_from(&[1,2,3]).is_err()); assert!(h.load().is_none()); }''')
bug(id="c13-init-on-error", property="C13", needs="a refused first update followed by a load",
 breaks="a refused first update leaves an empty histogram behind",
 edits=[(H,'''        if data.len() != self.config.total_buckets() {
            return Err(Error::IncompatibleParameters);
        }

        let mut histogram = self.get_or_init().write();

        let buckets = histogram.as_mut_slice();
''','''        let mut histogram = self.get_or_init().write();

        let buckets = histogram.as_mut_slice();
        if data.len() != buckets.len() {
            return Err(Error::IncompatibleParameters);
        }
''')],
 demo='''use metriken::*;
fn main(){ let h=RwLockHistogram::new(2,8); assert!(h.update_from(&[1,2,3]).is_err()); assert!(h.load().is_none()); }''')
bug(id="c13-torn-write", property="C13", needs="a load between the two halves of an update",
 breaks="an update is written in two lock sections, so a load can see half of it",
 edits=[(H,'''        let mut histogram = self.get_or_init().write();

        let buckets = histogram.as_mut_slice();
        buckets.copy_from_slice(data);
''','''        // Do not hold up readers for the whole copy.
        let histogram = self.get_or_init();
        let (head, tail) = data.split_at(data.len() / 2);
        histogram.write().as_mut_slice()[..head.len()].copy_from_slice(head);
        histogram.write().as_mut_slice()[head.len()..].copy_from_slice(tail);
''')],
 demo='''use metriken::*; use std::sync::atomic::*;
fn main(){ let h=RwLockHistogram::new(2,8); let n=h.config().total_buckets(); h.update_from(&vec![0;n]).unwrap(); let stop=AtomicBool::new(false);
 let torn=std::thread::scope(|s|{ s.spawn(||{ let mut i=0; while !stop.load(Ordering::Relaxed){ i+=1; h.update_from(&vec![i;n]).unwrap(); } });
  let mut torn=0; for _ in 0..3_000_000u32 { let l=h.load().unwrap(); let b=l.as_slice(); if b.iter().any(|x|*x!=b[0]) {torn+=1; break;} } stop.store(true,Ordering::Relaxed); torn });
 assert_eq!(torn,0); }''')

bug(id="c23-disabled", property="C23", needs="asking the entry of a lazy metric not yet used",
 breaks="an entry does not recognise its metric while that is disabled",
 edits=[(L,"        let a = self.metric() as *const _ as *const ();","        if !self.is_enabled() {\n            return false;\n        }\n\n        let a = self.metric() as *const _ as *const ();")],
 demo='''use metriken::*; #[metric] static A:Lazy<Counter>=Lazy::new(Counter::new);
fn main(){ let v=metrics(); assert!(v.iter().next().unwrap().is(&A)); }''')
bug(id="c23-as-any", property="C23", needs="asking the entry of a dynamic lazy metric after its first use",
 breaks="a dynamic entry reports the lazy wrapper as its concrete object, so it no longer matches its own metric",
 edits=[(D,"        self.metric.as_any()\n","        self.metric.as_any().map(|_| &self.metric as &dyn std::any::Any)\n")],
 demo='''use metriken::*;
fn main(){ let m=MetricBuilder::new("a").build(Lazy::<Counter>::new(Counter::new)); m.increment(); let v=metrics(); let l:&Lazy<Counter>=&*m; assert!(v.dynamic_metrics().next().unwrap().is(l)); }''')
