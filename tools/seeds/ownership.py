"""Planted bugs of C26."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("expo", os.path.join(os.path.dirname(os.path.abspath(__file__)), "expo.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
S, T, P, V, LIB = _m.S, _m.T, _m.P, _m.V, _m.LIB
D="metriken-core/src/dynmetrics.rs"; PV="metriken-core/src/provide.rs"
BUGS = []
def bug(**k): k["property"]="C26"; BUGS.append(k)
ALLOC='''use std::alloc::*; use std::sync::atomic::*; struct A; static N:AtomicI64=AtomicI64::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self,l:Layout)->*mut u8{ N.fetch_add(l.size() as i64,Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self,p:*mut u8,l:Layout){ N.fetch_sub(l.size() as i64,Ordering::SeqCst); System.dealloc(p,l) } }
#[global_allocator] static G:A=A;
fn grows(mut f: impl FnMut())->bool{ f(); f(); let a=N.load(Ordering::SeqCst); for _ in 0..100 { f(); } N.load(Ordering::SeqCst)-a>=100 }
'''
TOK='''use std::sync::atomic::*; static GONE:AtomicUsize=AtomicUsize::new(0); struct Tok(#[allow(dead_code)] u8); impl Drop for Tok { fn drop(&mut self){ GONE.fetch_add(1,Ordering::SeqCst); } }
'''
bug(id="c26-leak-name", needs="a dynamic metric with a computed name, made and dropped again and again",
 breaks="the name of a dynamic metric is never given back",
 edits=[(D,"            name: self.name,","            name: Cow::Borrowed(Box::leak(self.name.into_owned().into_boxed_str())),")],
 demo=ALLOC+'''use metriken::*; fn main(){ assert!(!grows(||drop(MetricBuilder::new(format!("a name {}",7)).build(Counter::new())))); }''')
bug(id="c26-replaced", needs="a datum attached to a builder that already has one of its type",
 breaks="the datum that is replaced is never destroyed",
 edits=[(PV,"        self.0.insert(Self::typeid_for::<T>(), Box::new(value));","        if let Some(old) = self.0.insert(Self::typeid_for::<T>(), Box::new(value)) {\n            Box::leak(old);\n        }")],
 demo=TOK+'''use metriken::*; fn main(){ drop(MetricBuilder::new("a").provide(Tok(1)).provide(Tok(2)).build(Counter::new())); assert_eq!(GONE.load(Ordering::SeqCst),2); }''')
bug(id="c26-reregister", needs="a pinned metric registered again under another name",
 breaks="the entry that a later registration replaces is never given back",
 edits=[(D,"        self.metrics.insert(Self::key_for(&entry), entry);","        if let Some(old) = self.metrics.insert(Self::key_for(&entry), entry) {\n            std::mem::forget(old);\n        }")],
 demo=ALLOC+'''use metriken::*; fn main(){ assert!(!grows(||{ let (m,e)=MetricBuilder::new(format!("first name {}",1)).build_pinned(Counter::new()); let m=Box::pin(m); m.as_ref().register(e); m.as_ref().register(MetricBuilder::new(format!("second name {}",2)).into_entry()); })); }''')
bug(id="c26-not-taken", needs="a metric that offers a value that the request does not take",
 breaks="a value that is offered and not taken is never destroyed",
 edits=[(PV,"            res.0 = Some(fulfil());\n        }\n","            res.0 = Some(fulfil());\n        } else {\n            std::mem::forget(fulfil);\n        }\n")],
 demo=TOK+'''use metriken::*; struct M; impl Metric for M { fn as_any(&self)->Option<&dyn std::any::Any>{None} fn value(&self)->Option<Value<'_>>{None} fn provide<'a>(&'a self,r:&mut metriken_core::Request<'a>){ r.provide_value(Tok(1)).provide_value(Tok(2)); } }
fn main(){ drop(metriken_core::request_value::<Tok>(&M)); assert_eq!(GONE.load(Ordering::SeqCst),2); }''')
bug(id="c26-reader-kept", expo=True, needs="a conversion of a damaged stream",
 breaks="a conversion that fails never gives back its reader, which stays open",
 edits=[(V,"        let mut reader = BufReader::new(reader);","        let mut kept = std::mem::ManuallyDrop::new(BufReader::new(reader));\n        let mut reader = &mut *kept;"),(V,"        Ok(metadata.num_rows)","        drop(std::mem::ManuallyDrop::into_inner(kept));\n        Ok(metadata.num_rows)")],
 demo=LIB+'''static GONE:std::sync::atomic::AtomicUsize=std::sync::atomic::AtomicUsize::new(0); struct R(Cursor<Vec<u8>>); impl Drop for R { fn drop(&mut self){ GONE.fetch_add(1,std::sync::atomic::Ordering::SeqCst); } }
impl std::io::Read for R { fn read(&mut self,b:&mut [u8])->std::io::Result<usize>{ std::io::Read::read(&mut self.0,b) } } impl std::io::Seek for R { fn seek(&mut self,p:std::io::SeekFrom)->std::io::Result<u64>{ std::io::Seek::seek(&mut self.0,p) } }
fn main(){ let mut b=stream(&[s1(1,&[],vec![c("a",1,&[])],vec![],vec![])]); b.pop(); let mut out=vec![]; assert!(MsgpackToParquet::new().convert_file_handle(R(Cursor::new(b)),&mut out).is_err()); assert_eq!(GONE.load(std::sync::atomic::Ordering::SeqCst),1); }''')
bug(id="c26-interned", expo=True, needs="snapshots taken again and again",
 breaks="every snapshot leaves the names of its counters behind",
 edits=[(T,"                    counters.push(counter);","                    let name: &'static str = Box::leak(counter.name.into_boxed_str());\n                    counter.name = name.to_string();\n                    counters.push(counter);")],
 demo=ALLOC+'''use metriken_exposition::*; fn main(){ let _m=metriken::MetricBuilder::new("a counter").build(metriken::Counter::new()); let s=SnapshotterBuilder::new().build(); assert!(!grows(||drop(s.snapshot()))); }''')
H="metriken/src/histogram.rs"
bug(id="c26-lost-race", needs="two threads recording the first value of a histogram at the same time",
 breaks="the buckets of the thread that loses the race to set up a histogram are never given back",
 edits=[(H,"        self.inner\n            .get_or_init(|| ::histogram::AtomicHistogram::with_config(&self.config))","        if let Some(h) = self.inner.get() {\n            return h;\n        }\n        if let Err(lost) = self.inner.set(::histogram::AtomicHistogram::with_config(&self.config)) {\n            std::mem::forget(lost);\n        }\n        self.inner.get().unwrap()")],
 demo=ALLOC+'''use metriken::*; use std::sync::*; fn main(){ let once=||{ for _ in 0..200 { let h=Arc::new(AtomicHistogram::new(7,64)); let go=Arc::new(AtomicUsize::new(0)); let t:Vec<_>=(0..4).map(|_|{ let (h,go)=(h.clone(),go.clone()); std::thread::spawn(move||{ go.fetch_add(1,Ordering::SeqCst); while go.load(Ordering::SeqCst)<4 { std::thread::yield_now(); } h.increment(1).unwrap(); })}).collect(); for t in t { t.join().unwrap(); } } }; once(); let a=N.load(Ordering::SeqCst); for _ in 0..20 { once(); } assert!(N.load(Ordering::SeqCst)-a < 50_000); }''')
