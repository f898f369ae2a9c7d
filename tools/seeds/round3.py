"""Third round: bugs that the checks of the time missed at first."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("expo", os.path.join(os.path.dirname(os.path.abspath(__file__)), "expo.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
S, T, P, V, LIB = _m.S, _m.T, _m.P, _m.V, _m.LIB
D="metriken-core/src/dynmetrics.rs"; F="metriken-core/src/formatter.rs"; PV="metriken-core/src/provide.rs"
C="metriken/src/counter.rs"; G="metriken/src/gauge.rs"; Z="metriken/src/lazy.rs"; DM="metriken-derive/src/metric.rs"
BUGS = []
def bug(**k): BUGS.append(k)
def ebug(demo, **k):
    k["expo"]=True; k["demo"]=LIB+demo; BUGS.append(k)

ebug(id="c18-flush-memory", property="C18", needs="more than a megabyte of values in one row group",
 breaks="the writer starts a new row group when much data is buffered, whatever the batch size says",
 edits=[(P,"        self.writer.write(&batch)\n","        self.writer.write(&batch)?;\n        if self.writer.in_progress_size() > 1 << 20 {\n            self.writer.flush()?;\n        }\n        Ok(())\n")],
 demo='''fn main(){ let s:Vec<_>=(0..600u64).map(|i|s1(i,&[],(0..400u64).map(|k|c(&format!("c{k}"),(i*400+k).wrapping_mul(0x9e3779b97f4a7c15),&[])).collect(),vec![],vec![])).collect(); assert_eq!(read(write(&s,ParquetOptions::new(),None)).groups,vec![600]); }''')
ebug(id="c17-index-u16", property="C17", needs="a sparse histogram with more than 65536 buckets",
 breaks="bucket indices of sparse histograms are kept modulo 65536",
 edits=[(P,".map(|x| Some(x as u64))",".map(|x| Some(x as u16 as u64))")],
 demo='''fn main(){ let mut x=histogram::Histogram::new(13,64).unwrap(); x.increment(u64::MAX).unwrap(); let n=x.as_slice().len(); let b=write(&[s1(1,&[],vec![],vec![],vec![mx::Histogram{name:"h".into(),value:x,metadata:md(&[])}])],ParquetOptions::new().histogram_type(ParquetHistogramType::Sparse),None); let f=read(b); let i=f.cols.iter().position(|c|c=="h:bucket_indices").unwrap(); let l=f.batch.unwrap().column(i).as_any().downcast_ref::<ListArray>().unwrap().value(0); assert_eq!(l.as_any().downcast_ref::<UInt64Array>().unwrap().value(0),n as u64-1); }''')
ebug(id="c21-schema-limit", property="C21", needs="a metric that appears for the first time after 4096 snapshots",
 breaks="only the first 4096 snapshots decide which columns there are",
 edits=[(V,"        let mut reader = BufReader::new(reader);","        let mut reader = BufReader::new(reader);\n        let mut seen = 0usize;"),(V,"            schema.push(s);","            if seen < 4096 {\n                schema.push(s);\n            }\n            seen += 1;")],
 demo='''fn main(){ let mut s:Vec<_>=(0..5000u64).map(|i|s1(i,&[],vec![c("a",i,&[])],vec![],vec![])).collect(); s.push(s1(9999,&[],vec![c("b",1,&[])],vec![],vec![])); let mut out=vec![]; assert_eq!(MsgpackToParquet::new().convert_file_handle(Cursor::new(stream(&s)),&mut out).unwrap(),5001); assert!(read(out).cols.contains(&"b".to_string())); }''')
bug(id="c10-meta-limit", property="C10", needs="a declaration with more than twelve metadata entries",
 breaks="only the first twelve metadata entries of a declaration are kept",
 edits=[(DM,"        .into_values()\n","        .into_values()\n        .take(12)\n")],
 demo='''use metriken::*; #[metric(metadata={a="1",b="1",c="1",d="1",e="1",f="1",g="1",h="1",i="1",j="1",k="1",l="1",m="1",n="1"})] static A:Counter=Counter::new(); fn main(){ let v=metrics(); let e=v.iter().next().unwrap(); assert_eq!(e.metadata().into_iter().count(),14); assert_eq!(e.metadata().get("n"),Some("1")); }''')
bug(id="c02-torn-read", property="C02", needs="a counter read while another thread carries into its upper half",
 breaks="a counter is read in two halves, so a reader may see a value it never had",
 edits=[(C,"        self.0.load(Ordering::Relaxed)","        let low = self.0.load(Ordering::Relaxed) & 0xffff_ffff;\n        let high = self.0.load(Ordering::Relaxed) & !0xffff_ffff;\n        high | low")],
 demo='''use metriken::*; use std::sync::atomic::*; use std::sync::Arc; use std::time::*;
fn main(){ let a=Arc::new(Counter::new()); let stop=Arc::new(AtomicBool::new(false)); a.set(0xffff_ffff); let t={let (a,stop)=(a.clone(),stop.clone()); std::thread::spawn(move||while !stop.load(Ordering::SeqCst){ a.set(0xffff_ffff); a.set(0x1_0000_0000); })}; let end=Instant::now()+Duration::from_secs(8); let mut bad=None; while bad.is_none() && Instant::now()<end { for _ in 0..1000 { let v=Counter::value(&a); if v!=0xffff_ffff && v!=0x1_0000_0000 { bad=Some(v); } } } stop.store(true,Ordering::SeqCst); t.join().unwrap(); assert_eq!(bad,None); }''')
ebug(id="c14-enabled-only", property="C14", needs="a metric that has a value although it says it is not enabled",
 breaks="the snapshot leaves out metrics that have a value but are not enabled",
 edits=[(T,"            match metric.value() {","            if !metric.is_enabled() {\n                continue;\n            }\n\n            match metric.value() {")],
 demo='''struct X; impl metriken::Metric for X { fn is_enabled(&self)->bool{false} fn as_any(&self)->Option<&dyn std::any::Any>{Some(self)} fn value(&self)->Option<metriken::Value<'_>>{Some(metriken::Value::Counter(7))} }
fn main(){ let _m=metriken::MetricBuilder::new("a").build(X); assert_eq!(Snapshotter::default().snapshot().counters().len(),1); }''')
ebug(id="c14-as-any", property="C14", needs="a metric that hands out a histogram it wraps",
 breaks="the snapshot looks at the metric object, not at the histogram its value refers to",
 edits=[(T,"                Some(Value::Other(other)) => {","                Some(Value::Other(_)) => {\n                    let Some(other) = metric.as_any() else { continue };")],
 demo='''struct X(metriken::AtomicHistogram); impl metriken::Metric for X { fn as_any(&self)->Option<&dyn std::any::Any>{Some(self)} fn value(&self)->Option<metriken::Value<'_>>{metriken::Metric::value(&self.0)} }
fn main(){ let x=X(metriken::AtomicHistogram::new(2,8)); x.0.increment(3).unwrap(); let _m=metriken::MetricBuilder::new("a").build(x); assert_eq!(Snapshotter::default().snapshot().histograms().len(),1); }''')
bug(id="c07-trunc", property="C07", needs="a metadata value longer than 1024 bytes",
 breaks="long label values are cut off in the Prometheus format",
 edits=[(F,"    value\n        .replace(","    let mut end = value.len().min(1024);\n    while !value.is_char_boundary(end) {\n        end -= 1;\n    }\n    value[..end]\n        .replace(")],
 demo='''use metriken::*; fn main(){ let l="x".repeat(2000); let _m=MetricBuilder::new("a").metadata("k",l.clone()).build(Counter::new()); let v=metrics(); assert!(v.dynamic_metrics().next().unwrap().formatted(Format::Prometheus).contains(&l)); }''')
bug(id="c07-many", property="C07", needs="a metric with more than 64 labels",
 breaks="only 64 labels are shown in the Prometheus format",
 edits=[(F,"                .iter()\n","                .iter()\n                .take(64)\n")],
 demo='''use metriken::*; fn main(){ let mut b=MetricBuilder::new("a"); for i in 0..80 { b=b.metadata(format!("k{i}"),"v"); } let _m=b.build(Counter::new()); let v=metrics(); assert_eq!(v.dynamic_metrics().next().unwrap().formatted(Format::Prometheus).matches("=\\"v\\"").count(),80); }''')
bug(id="c09-enabled-early", property="C09", needs="asking whether a lazy metric is enabled while its initialiser runs",
 breaks="a lazy metric claims to be enabled as soon as its initialiser has started",
 edits=[(Z,"    func: Cell<Option<F>>,\n}","    func: Cell<Option<F>>,\n    started: std::sync::atomic::AtomicBool,\n}"),(Z,"            func: Cell::new(Some(func)),","            func: Cell::new(Some(func)),\n            started: std::sync::atomic::AtomicBool::new(false),"),(Z,"            func()\n","            struct Undo<'a>(&'a std::sync::atomic::AtomicBool, bool);\n            impl Drop for Undo<'_> {\n                fn drop(&mut self) {\n                    self.0.store(self.1, std::sync::atomic::Ordering::Release);\n                }\n            }\n            this.started.store(true, std::sync::atomic::Ordering::Release);\n            let mut undo = Undo(&this.started, false);\n            let v = func();\n            undo.1 = true;\n            v\n"),(Z,"        Lazy::get(self).is_some()","        self.started.load(std::sync::atomic::Ordering::Acquire)")],
 demo='''use metriken::*; static Z:Lazy<Counter>=Lazy::new(||{ assert!(!Metric::is_enabled(&Z)); Counter::new() }); fn main(){ Z.increment(); assert!(Metric::is_enabled(&Z)); assert_eq!(Counter::value(&Z),1); }''')
ebug(id="c17-timestamp-name", property="C17", needs="a counter that is itself called timestamp",
 breaks="a counter called timestamp gets no column",
 edits=[(P,"        for (counter, mut metadata) in self.counters.into_iter() {","        self.counters.remove(\"timestamp\");\n        for (counter, mut metadata) in self.counters.into_iter() {")],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![c("timestamp",7,&[])],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.cols.iter().filter(|c|*c=="timestamp").count(),2); }''')
ebug(id="c18-batch-cap", property="C18", needs="a batch size, and a recording, of more than 32768 snapshots",
 breaks="row groups never hold more than 32768 rows although more were asked for",
 edits=[(P,".set_max_row_group_size(options.max_batch_size)",".set_max_row_group_size(options.max_batch_size.min(32768))")],
 demo='''fn main(){ let mut sc=ParquetSchema::new(); sc.push(s1(0,&[],vec![],vec![],vec![])); let mut out=vec![]; let mut w=sc.finalize(&mut out,ParquetOptions::new().max_batch_size(50000),None).unwrap(); for i in 0..40000u64 { w.push(s1(i,&[],vec![],vec![],vec![])).unwrap(); } w.finalize().unwrap(); assert_eq!(read(out).groups,vec![40000]); }''')
_old='''                    let mut counter = Counter {
                        name: metric.formatted(metriken::Format::Simple),
                        value,
                        metadata: HashMap::from_iter(
                            metric
                                .metadata()
                                .into_iter()
                                .map(|(k, v)| (k.to_string(), v.to_string())),
                        ),'''
ebug(id="c24-stale-cache", property="C24", needs="a metric dropped and another of the same name put at its address with other metadata",
 breaks="metadata is remembered by address and name, so a new metric is shown with the metadata of one already gone",
 edits=[(T,"        for metric in &metriken::metrics() {","        static CACHE: std::sync::Mutex<std::collections::BTreeMap<(usize, String), HashMap<String, String>>> =\n            std::sync::Mutex::new(std::collections::BTreeMap::new());\n        for metric in &metriken::metrics() {"),(T,_old,'''                    let mut counter = Counter {
                        name: metric.formatted(metriken::Format::Simple),
                        value,
                        metadata: CACHE
                            .lock()
                            .unwrap()
                            .entry((
                                metric.metric() as *const _ as *const () as usize,
                                metric.name().to_string(),
                            ))
                            .or_insert_with(|| {
                                HashMap::from_iter(
                                    metric
                                        .metadata()
                                        .into_iter()
                                        .map(|(k, v)| (k.to_string(), v.to_string())),
                                )
                            })
                            .clone(),''')],
 demo='''fn main(){ for i in 0..50 { let m=metriken::MetricBuilder::new("a").metadata("k",i.to_string()).build(metriken::Counter::new()); assert_eq!(Snapshotter::default().snapshot().counters()[0].metadata["k"],i.to_string()); drop(m); } }''')
bug(id="c08-crowd", property="C08", needs="more than eight types attached to one metric",
 breaks="only eight of the attached types can be asked for",
 edits=[(PV,"        if let Some(element) = self.0.get(&request.0.tag_id()) {","        if self.0.len() > 8 {\n            for element in self.0.values().take(8) {\n                Self::provide_dyn(&**element, request);\n            }\n            return;\n        }\n        if let Some(element) = self.0.get(&request.0.tag_id()) {")],
 demo='''use metriken::*; struct T<const N:usize>(usize); fn main(){ let _m=MetricBuilder::new("a").provide(T::<0>(0)).provide(T::<1>(1)).provide(T::<2>(2)).provide(T::<3>(3)).provide(T::<4>(4)).provide(T::<5>(5)).provide(T::<6>(6)).provide(T::<7>(7)).provide(T::<8>(8)).provide(T::<9>(9)).build(Counter::new()); let v=metrics(); let e=v.dynamic_metrics().next().unwrap(); let n=e.request_ref::<T<0>>().is_some() as u8+e.request_ref::<T<1>>().is_some() as u8+e.request_ref::<T<2>>().is_some() as u8+e.request_ref::<T<3>>().is_some() as u8+e.request_ref::<T<4>>().is_some() as u8+e.request_ref::<T<5>>().is_some() as u8+e.request_ref::<T<6>>().is_some() as u8+e.request_ref::<T<7>>().is_some() as u8+e.request_ref::<T<8>>().is_some() as u8+e.request_ref::<T<9>>().is_some() as u8; assert_eq!(n,10); }''')
ebug(id="c16-default-value", property="C16", needs="a stored counter without a value",
 breaks="a counter whose value is missing is read as zero instead of being refused",
 edits=[(S,"    pub value: u64,",'    #[cfg_attr(feature = "serde", serde(default))]\n    pub value: u64,')],
 demo='''fn main(){ let s=s1(1,&[],vec![c("a",1,&[])],vec![],vec![]); let j=serde_json::to_string(&s).unwrap(); assert!(serde_json::from_str::<Snapshot>(&j).is_ok()); let k=j.replace("\\"value\\":1,",""); assert_ne!(j,k); assert!(serde_json::from_str::<Snapshot>(&k).is_err()); }''')
