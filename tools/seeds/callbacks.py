"""Planted bugs for C25 (user code called back)."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("expo", os.path.join(os.path.dirname(os.path.abspath(__file__)), "expo.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
T, LIB = _m.T, _m.LIB
L="metriken-core/src/lib.rs"; Z="metriken/src/lazy.rs"; D="metriken-core/src/dynmetrics.rs"
BUGS = []
def bug(**k): BUGS.append(k)
def ebug(demo, **k):
    k["expo"]=True; k["demo"]=LIB+demo; BUGS.append(k)
QUIET='std::panic::set_hook(Box::new(|_|{}));'

ebug(id="c25-poison", property="C25", needs="a snapshot filter that panics once",
 breaks="snapshots are taken one at a time under a lock that a panicking filter poisons, so every later snapshot panics",
 edits=[(T,"        let ts = SystemTime::now();\n","        static ONE_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        let _guard = ONE_AT_A_TIME.lock().unwrap();\n        let ts = SystemTime::now();\n")],
 demo='''static N:AtomicUsize=AtomicUsize::new(0); fn f(_:&metriken::MetricEntry)->bool{ if N.fetch_add(1,Ordering::SeqCst)==0 { panic!() } true }
fn main(){ let _m=metriken::MetricBuilder::new("a").build(metriken::Counter::new()); let s=SnapshotterBuilder::new().filter(f).build(); let _=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||s.snapshot())); let r=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||s.snapshot().counters().len())); assert_eq!(r.ok(),Some(1)); }''')
ebug(id="c25-busy", property="C25", needs="a metric whose value panics while a snapshot is taken",
 breaks="a guard against recursion stays set after a panic, so every later snapshot is empty",
 edits=[(T,"        // iterate through the metrics and build-up the snapshot\n        for metric in &metriken::metrics() {","        // a metric must not be read again from within its own reading\n        static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let nested = BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 64;\n\n        // iterate through the metrics and build-up the snapshot\n        for metric in metriken::metrics().iter().filter(|_| !nested) {"),
        (T,"        Snapshot::V1(SnapshotV1 {","        BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n        Snapshot::V1(SnapshotV1 {")],
 demo='''fn f(_:&metriken::MetricEntry)->bool{ panic!() }
fn main(){ std::panic::set_hook(Box::new(|_|{})); let _m=metriken::MetricBuilder::new("a").build(metriken::Counter::new()); let s=SnapshotterBuilder::new().filter(f).build(); for _ in 0..200 { let _=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||s.snapshot())); } if Snapshotter::default().snapshot().counters().len()!=1 { std::process::exit(1) } }''')
ebug(id="c25-lend", property="C25", needs="a panic in user code during a snapshot, and a later snapshot by the same snapshotter",
 breaks="the snapshotter lends out its metadata and never gets it back when user code panics",
 edits=[(T,"    metadata: HashMap<String, String>,\n}","    metadata: std::sync::Mutex<HashMap<String, String>>,\n}"),
        (T,"            metadata: HashMap::new(),\n        }\n    }\n}","            metadata: Default::default(),\n        }\n    }\n}"),
        (T,"self.snapshotter.metadata.insert(key, value);","self.snapshotter.metadata.get_mut().unwrap().insert(key, value);"),
        (T,"        let ts = SystemTime::now();\n","        let ts = SystemTime::now();\n        let metadata = std::mem::take(&mut *self.metadata.lock().unwrap());\n"),
        (T,"metadata: self.metadata.clone(),","metadata: {\n                *self.metadata.lock().unwrap() = metadata.clone();\n                metadata\n            },")],
 demo='''static N:AtomicUsize=AtomicUsize::new(0); fn f(_:&metriken::MetricEntry)->bool{ if N.fetch_add(1,Ordering::SeqCst)==0 { panic!() } true }
fn main(){ let _m=metriken::MetricBuilder::new("a").build(metriken::Counter::new()); let s=SnapshotterBuilder::new().filter(f).metadata("k".into(),"v".into()).build(); let _=std::panic::catch_unwind(std::panic::AssertUnwindSafe(||s.snapshot())); assert_eq!(s.snapshot().metadata().len(),1); }''')
bug(id="c25-buffer", property="C25", needs="a formatter that formats another metric",
 breaks="a scratch buffer is in use while the formatter runs, so formatting from within a formatter panics",
 edits=[(L,"        formatter(self, format)\n","        thread_local! {\n            static BUFFER: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };\n        }\n        BUFFER.with(|buffer| {\n            let mut buffer = buffer.borrow_mut();\n            buffer.clear();\n            buffer.push_str(&formatter(self, format));\n            buffer.clone()\n        })\n")],
 demo='''use metriken::*; fn f(e:&MetricEntry,_:Format)->String{ if e.name()=="a" { format!("{}+",metrics().dynamic_metrics().find(|e|e.name()=="b").unwrap().formatted(Format::Simple)) } else { "B".into() } }
fn main(){ let _a=MetricBuilder::new("a").formatter(f).build(Counter::new()); let _b=MetricBuilder::new("b").formatter(f).build(Counter::new()); let v=metrics(); assert_eq!(v.dynamic_metrics().find(|e|e.name()=="a").unwrap().formatted(Format::Simple),"B+"); }''')
bug(id="c25-one-init", property="C25", needs="a lazy initialiser that panics, then the first use of another lazy metric",
 breaks="initialisers run under one common lock that a panicking one poisons for all others",
 edits=[(Z,"            func()\n","            static INITIALISING: std::sync::Mutex<()> = std::sync::Mutex::new(());\n            let _guard = INITIALISING.lock().unwrap();\n            func()\n")],
 demo='''use metriken::*; static A:Lazy<Counter>=Lazy::new(||panic!()); static B:Lazy<Counter>=Lazy::new(Counter::new);
fn main(){ let _=std::panic::catch_unwind(||A.increment()); assert!(std::panic::catch_unwind(||B.increment()).is_ok()); }''')
bug(id="c25-exclusive", property="C25", needs="user code that takes a view while one is held",
 breaks="views exclude each other, so user code that looks at the listing while a view is held never returns",
 edits=[(D,"use parking_lot::{const_rwlock, RwLock, RwLockReadGuard};","use parking_lot::{const_rwlock, RwLock, RwLockReadGuard, RwLockWriteGuard};"),
        (D,"    REGISTRY.read()\n","    // wait for registrations under way, then share\n    RwLockWriteGuard::downgrade(REGISTRY.write())\n")],
 demo='''use metriken::*; fn main(){ let (tx,rx)=std::sync::mpsc::channel(); std::thread::spawn(move||{ let a=metrics(); let b=metrics(); let n=a.iter().count()+b.iter().count(); let _=tx.send(n); }); assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok()); }''')
