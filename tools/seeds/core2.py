D="metriken-core/src/dynmetrics.rs"; M="metriken-core/src/metrics.rs"; MD="metriken-core/src/metadata.rs"
L="metriken-core/src/lib.rs"; F="metriken-core/src/formatter.rs"; P="metriken-core/src/provide.rs"; W="metriken-core/src/wrapper.rs"
C="metriken/src/counter.rs"; G="metriken/src/gauge.rs"; H="metriken/src/histogram.rs"; Z="metriken/src/lazy.rs"
BUGS=[]
def bug(**k): BUGS.append(k)

bug(id="c03-cap", property="C03", needs="more than 1024 live dynamic metrics",
 breaks="registrations past a built-in limit are ignored",
 edits=[(D,"        self.metrics.insert(Self::key_for(&entry), entry);","        const LIMIT: usize = 1024;\n        if self.metrics.len() < LIMIT {\n            self.metrics.insert(Self::key_for(&entry), entry);\n        }")],
 demo='''use metriken::*; fn main(){ let v:Vec<_>=(0..1500).map(|i|MetricBuilder::new(format!("m{i}")).build(Counter::new())).collect(); assert_eq!(metrics().dynamic_metrics().count(),v.len()); }''')
bug(id="c03-rereg-desc", property="C03", needs="registering a pinned metric again without a description",
 breaks="a registration without description keeps the description of the previous one",
 edits=[(D,"        self.metrics.insert(Self::key_for(&entry), entry);","        let mut entry = entry;\n        let key = Self::key_for(&entry);\n        if let Some(old) = self.metrics.remove(&key) {\n            entry.description = entry.description.or(old.description);\n        }\n        self.metrics.insert(key, entry);")],
 demo='''use metriken::*; fn main(){ let (m,e)=MetricBuilder::new("a").description("d").build_pinned(Counter::new()); let m=Box::pin(m); m.as_ref().register(e); m.as_ref().register(MetricBuilder::new("b").into_entry()); let v=metrics(); let e=v.dynamic_metrics().next().unwrap(); assert_eq!((e.name(),e.description()),("b",None)); }''')
bug(id="c04-impatient", property="C04", needs="a view held for over half a second while another thread registers a metric",
 breaks="a registration that has to wait too long is dropped on the floor",
 edits=[(D,"    REGISTRY.write().register(entry);","    // never stall the application for long on behalf of a metric\n    if let Some(mut registry) = REGISTRY.try_write_for(std::time::Duration::from_millis(500)) {\n        registry.register(entry);\n    }")],
 demo='''use metriken::*; use std::time::Duration;
fn main(){ let v=metrics(); let t=std::thread::spawn(||{ let m=MetricBuilder::new("a").build(Counter::new()); let n=metrics().dynamic_metrics().count(); drop(m); n }); std::thread::sleep(Duration::from_millis(900)); drop(v); assert_eq!(t.join().unwrap(),1); }''')
bug(id="c04-background", property="C04", needs="a metric dropped while a view is held for a moment",
 breaks="a drop that finds the registry busy leaves the entry to a background thread and returns, so the entry outlives its metric",
 edits=[(D,"    REGISTRY.write().unregister(metric);","    if let Some(mut registry) = REGISTRY.try_write_for(std::time::Duration::from_millis(40)) {\n        registry.unregister(metric);\n    } else {\n        let key = metric as *const () as usize;\n        std::thread::spawn(move || REGISTRY.write().metrics.remove(&key));\n    }")],
 demo='''use metriken::*; use std::time::Duration; use std::sync::mpsc::channel;
fn main(){ let m=MetricBuilder::new("a").build(Counter::new()); let (tx,rx)=channel(); let v=metrics(); let t=std::thread::spawn(move||{ tx.send(()).unwrap(); drop(m); }); rx.recv().unwrap(); std::thread::sleep(Duration::from_millis(400)); let finished=t.is_finished(); drop(v); t.join().unwrap(); assert!(!finished); }''')
bug(id="c05-rev-skip", property="C05", needs="nth_back past the dynamic metrics on an iterator whose static part was partly used from the front",
 breaks="nth_back counts static metrics that were already taken from the front",
 edits=[(M,"        let len = self.dm.len();\n        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))","        let len = self.dm.len();\n        if n < len {\n            return self.dm.nth_back(n);\n        }\n        let n = (n - len).min(self.sm.len().saturating_sub(1));\n        self.dm.nth_back(len).or_else(|| self.sm.nth_back(n))")],
 demo='''use metriken::*; #[metric] static A:Counter=Counter::new(); #[metric] static B:Counter=Counter::new();
fn main(){ let v=metrics(); let mut i=v.iter(); assert!(i.nth_back(2).is_none()); assert!(i.next().is_none()); }''')
bug(id="c06-trim", property="C06", needs="a key with a leading or trailing blank asked for or stored",
 breaks="dynamic lookup ignores surrounding white space in the key asked for",
 edits=[(MD,"            Impl::Dynamic(map) => map.get(key).map(|s| &**s),","            Impl::Dynamic(map) => map\n                .get(key)\n                .or_else(|| map.get(key.trim_end()))\n                .map(|s| &**s),")],
 demo='''use metriken::*; fn main(){ let m=Metadata::from(std::collections::HashMap::from([("a".to_string(),"1".to_string())])); assert_eq!(m.get("a "),None); }''')
bug(id="c08-priority", property="C08", needs="a dynamic metric that itself provides a type also attached while building",
 breaks="the metric's own datum precedes the one attached while building",
 edits=[(D,"        self.provider.provide(request);\n        self.metric.provide(request);","        self.metric.provide(request);\n        self.provider.provide(request);")],
 demo='''use metriken::*; use std::any::Any;
struct X(u32); impl Metric for X { fn as_any(&self)->Option<&dyn Any>{Some(self)} fn value(&self)->Option<Value<'_>>{None} fn provide<'a>(&'a self,r:&mut metriken_core::Request<'a>){ r.provide_ref(&self.0); } }
fn main(){ let _m=MetricBuilder::new("a").provide(7u32).build(X(1)); let v=metrics(); assert_eq!(v.dynamic_metrics().next().unwrap().request_ref::<u32>(),Some(&7)); }''')
bug(id="c09-racy", property="C09", needs="two threads using a lazy metric for the first time at once",
 breaks="racing first users may each run an initialiser (a copy), and one value is thrown away",
 edits=[(Z,'''        this.cell.get_or_init(|| {
            let func = this
                .func
                .take()
                .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            func()
        })''','''        if this.cell.get().is_none() {
            // do not hold the cell's lock while user code runs
            if let Some(func) = this.func.take() {
                let _ = this.cell.set(func());
            }
        }
        this.cell
            .get()
            .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"))''')],
 demo='''use metriken::*; use std::time::Duration;
fn main(){ for _ in 0..20 { fn init()->Counter{ std::thread::sleep(Duration::from_millis(5)); Counter::new() } let z:Lazy<Counter>=Lazy::new(init); let l:&'static Lazy<Counter>=Box::leak(Box::new(z)); let t:Vec<_>=(0..4).map(|_|std::thread::spawn(move||{l.increment();})).collect(); for t in t { t.join().unwrap(); } assert_eq!(Counter::value(l),4); } }''')
bug(id="c12-init-race", property="C12", needs="several threads making the very first recording at once",
 breaks="a recorder that loses the race to create the buckets records into its own copy, which is lost",
 edits=[(H,"        self.get_or_init().increment(value)","        match self.inner.get() {\n            Some(histogram) => histogram.increment(value),\n            None => {\n                let fresh = ::histogram::AtomicHistogram::with_config(&self.config);\n                let result = fresh.increment(value);\n                if result.is_ok() {\n                    let _ = self.inner.set(fresh);\n                }\n                result\n            }\n        }"),
        (H,"    fn get_or_init(&self) -> &::histogram::AtomicHistogram {\n        self.inner\n            .get_or_init(|| ::histogram::AtomicHistogram::with_config(&self.config))\n    }\n","")],
 demo='''use metriken::*; use std::sync::Barrier;
fn main(){ for _ in 0..3000 { let h=AtomicHistogram::new(7,64); let b=Barrier::new(8); std::thread::scope(|s|{ for _ in 0..8 { s.spawn(||{ b.wait(); h.increment(5).unwrap(); }); } }); let n:u64=h.load().unwrap().as_slice().iter().sum(); assert_eq!(n,8); } }''')
bug(id="c13-try-write", property="C13", needs="an update while a load is in progress",
 breaks="an update that finds the histogram being read is skipped, and reports success",
 edits=[(H,"        let mut histogram = self.get_or_init().write();\n","        // reporting must not slow down the writer\n        let Some(mut histogram) = self.get_or_init().try_write() else {\n            return Ok(());\n        };\n")],
 demo='''use metriken::*; use std::sync::atomic::*;
fn main(){ let h=RwLockHistogram::new(7,64); let n=h.config().total_buckets(); let stop=AtomicBool::new(false); let mut bad=0;
 std::thread::scope(|s|{ for _ in 0..3 { s.spawn(||while !stop.load(Ordering::Relaxed){ std::hint::black_box(h.load()); }); } for i in 0..3000u64 { h.update_from(&vec![i;n]).unwrap(); if h.load().unwrap().as_slice()[0]!=i { bad+=1; } } stop.store(true,Ordering::Relaxed); }); assert_eq!(bad,0); }''')
bug(id="c13-try-read", property="C13", needs="a load while an update is in progress",
 breaks="a load that meets an update in progress returns nothing",
 edits=[(H,"self.inner.get().map(|h| h.read().clone())","self.inner\n            .get()\n            .and_then(|h| h.try_read().map(|h| h.clone()))")],
 demo='''use metriken::*; use std::sync::atomic::*;
fn main(){ let h=RwLockHistogram::new(7,64); let n=h.config().total_buckets(); h.update_from(&vec![1;n]).unwrap(); let stop=AtomicBool::new(false); let mut bad=0;
 std::thread::scope(|s|{ s.spawn(||while !stop.load(Ordering::Relaxed){ h.update_from(&vec![1;n]).unwrap(); }); for _ in 0..200000 { if h.load().is_none() { bad+=1; break; } } stop.store(true,Ordering::Relaxed); }); assert_eq!(bad,0); }''')
bug(id="c13-zeros", property="C13", needs="an update to all zeros after a non-zero one",
 breaks="an update of only zeros is taken for no data and skipped",
 edits=[(H,"        let mut histogram = self.get_or_init().write();\n","        if self.inner.get().is_some() && data.iter().all(|count| *count == 0) {\n            return Ok(());\n        }\n\n        let mut histogram = self.get_or_init().write();\n")],
 demo='''use metriken::*; fn main(){ let h=RwLockHistogram::new(2,8); let n=h.config().total_buckets(); h.update_from(&vec![1;n]).unwrap(); h.update_from(&vec![0;n]).unwrap(); assert!(h.load().unwrap().as_slice().iter().all(|c|*c==0)); }''')
bug(id="c02-backoff", property="C02", needs="many threads decrementing one gauge at once",
 breaks="a contended gauge decrement gives up after a few attempts",
 edits=[(G,"self.0.fetch_sub(value, Ordering::Relaxed)","{\n            let mut current = self.0.load(Ordering::Relaxed);\n            for _ in 0..16 {\n                match self.0.compare_exchange_weak(\n                    current,\n                    current.wrapping_sub(value),\n                    Ordering::Relaxed,\n                    Ordering::Relaxed,\n                ) {\n                    Ok(previous) => return previous,\n                    Err(actual) => current = actual,\n                }\n            }\n            current\n        }")],
 demo='''use metriken::*; fn main(){ let g=Gauge::new(); std::thread::scope(|s|{ for _ in 0..8 { s.spawn(||for _ in 0..1_000_000 { g.decrement(); }); } }); assert_eq!(g.value(),-8_000_000); }''')
BUGS=[b for b in BUGS if b]
