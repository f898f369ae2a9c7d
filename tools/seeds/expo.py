S="metriken-exposition/src/snapshot.rs"; T="metriken-exposition/src/snapshotter.rs"; P="metriken-exposition/src/parquet.rs"; V="metriken-exposition/src/convert.rs"
BUGS=[]
LIB='''#![allow(dead_code, unused_imports)]
use std::collections::*; use std::io::*; use std::time::*; use std::sync::atomic::*; use metriken_exposition::*; use metriken_exposition as mx;
use arrow::array::*;
fn md(p:&[(&str,&str)])->HashMap<String,String>{ p.iter().map(|(a,b)|(a.to_string(),b.to_string())).collect() }
fn c(n:&str,v:u64,m:&[(&str,&str)])->mx::Counter{ mx::Counter{name:n.into(),value:v,metadata:md(m)} }
fn g(n:&str,v:i64,m:&[(&str,&str)])->mx::Gauge{ mx::Gauge{name:n.into(),value:v,metadata:md(m)} }
fn h(n:&str,b:Vec<u64>)->mx::Histogram{ mx::Histogram{name:n.into(),value:histogram::Histogram::from_buckets(1,3,b).unwrap(),metadata:md(&[])} }
fn s1(ns:u64,m:&[(&str,&str)],c:Vec<mx::Counter>,g:Vec<mx::Gauge>,h:Vec<mx::Histogram>)->Snapshot{ Snapshot::V1(SnapshotV1{systemtime:SystemTime::UNIX_EPOCH+Duration::from_nanos(ns),metadata:md(m),counters:c,gauges:g,histograms:h}) }
fn write(s:&[Snapshot],o:ParquetOptions,m:Option<HashMap<String,String>>)->Vec<u8>{ let mut sc=ParquetSchema::new(); for x in s { sc.push(x.clone()); } let mut out=vec![]; let mut w=sc.finalize(&mut out,o,m).unwrap(); for x in s { w.push(x.clone()).unwrap(); } w.finalize().unwrap(); out }
struct File{ cols:Vec<String>, batch:Option<RecordBatch>, groups:Vec<i64>, kv:HashMap<String,String>, fields:Vec<HashMap<String,String>> }
fn read(b:Vec<u8>)->File{ use parquet::arrow::arrow_reader::*; let tmp=std::env::temp_dir().join(format!("seed-demo-{}",std::process::id())); std::fs::write(&tmp,b).unwrap(); let f=std::fs::File::open(&tmp).unwrap(); std::fs::remove_file(&tmp).unwrap();
 let r=ParquetRecordBatchReaderBuilder::try_new(f).unwrap();
 let cols=r.schema().fields().iter().map(|f|f.name().clone()).collect(); let fields=r.schema().fields().iter().map(|f|f.metadata().clone()).collect();
 let groups=r.metadata().row_groups().iter().map(|g|g.num_rows()).collect();
 let kv=r.metadata().file_metadata().key_value_metadata().cloned().unwrap_or_default().into_iter().map(|k|(k.key,k.value.unwrap_or_default())).collect();
 let batch=r.with_batch_size(1<<20).build().unwrap().next().map(|b|b.unwrap()); File{cols,batch,groups,kv,fields} }
fn stream(s:&[Snapshot])->Vec<u8>{ s.iter().flat_map(|x|Snapshot::to_msgpack(x).unwrap()).collect() }
'''
def bug(demo, **k):
    k["expo"]=True; k["demo"]=LIB+demo; BUGS.append(k)

bug(id="c14-gauge-name", property="C14", needs="a gauge with a custom formatter",
 breaks="gauge readings are named by the entry's name instead of its simple format",
 edits=[(T,'''                    let mut gauge = Gauge {
                        name: metric.formatted(metriken::Format::Simple),''','''                    let mut gauge = Gauge {
                        name: metric.name().to_string(),''')],
 demo='''fn f(_:&metriken::MetricEntry,_:metriken::Format)->String{"custom".into()}
fn main(){ let _m=metriken::MetricBuilder::new("a").formatter(f).build(metriken::Gauge::new()); let mut s=Snapshotter::default().snapshot(); assert_eq!(s.gauges()[0].name,"custom"); }''')
bug(id="c14-empty-desc", property="C14", needs="a histogram with an empty description",
 breaks="an empty description is left out of a histogram's metadata",
 edits=[(T,"                        if let Some(description) = metric.description().map(|v| v.to_string()) {\n                            metadata","                        if let Some(description) = metric.description().map(|v| v.to_string()).filter(|v| !v.is_empty()) {\n                            metadata")],
 demo='''fn main(){ let m=metriken::MetricBuilder::new("a").description("").build(metriken::AtomicHistogram::new(2,8)); m.increment(1).unwrap(); let mut s=Snapshotter::default().snapshot(); assert_eq!(s.histograms()[0].metadata.get("description"),Some(&String::new())); }''')
bug(id="c14-powers-kept", property="C14", needs="a histogram metric that carries its own grouping_power label",
 breaks="a label of the same name hides the histogram's real configuration",
 edits=[(T,'''                        metadata.insert(
                            "grouping_power".to_string(),
                            histogram.config().grouping_power().to_string(),
                        );''','''                        metadata
                            .entry("grouping_power".to_string())
                            .or_insert(histogram.config().grouping_power().to_string());''')],
 demo='''fn main(){ let m=metriken::MetricBuilder::new("a").metadata("grouping_power","9").build(metriken::AtomicHistogram::new(2,8)); m.increment(1).unwrap(); let mut s=Snapshotter::default().snapshot(); assert_eq!(s.histograms()[0].metadata["grouping_power"],"2"); }''')
bug(id="c14-idle-histogram", property="C14", needs="a bulk histogram whose last update was all zero",
 breaks="a recorded histogram with no counts is left out of the snapshot",
 edits=[(T,"                    if let Some(histogram) = histogram {","                    if let Some(histogram) = histogram.filter(|h| h.as_slice().iter().any(|c| *c > 0)) {")],
 demo='''fn main(){ let m=metriken::MetricBuilder::new("a").build(metriken::RwLockHistogram::new(1,3)); m.update_from(&[0;6]).unwrap(); let mut s=Snapshotter::default().snapshot(); assert_eq!(s.histograms().len(),1); }''')

bug(id="c15-skip-empty", property="C15", needs="a V1 snapshot without metadata through MessagePack",
 breaks="empty snapshot metadata is left out, which shifts the fields of the compact encoding",
 edits=[(S,'''pub struct SnapshotV1 {
    /// Timestamp of the snapshot
''' if False else '''pub struct SnapshotV1 {
    pub systemtime: SystemTime,

    #[cfg_attr(feature = "serde", serde(default))]''','''pub struct SnapshotV1 {
    pub systemtime: SystemTime,

    #[cfg_attr(
        feature = "serde",
        serde(default, skip_serializing_if = "HashMap::is_empty")
    )]''')],
 demo='''fn main(){ let b=stream(&[s1(1,&[],vec![c("a",1,&[])],vec![],vec![])]); let mut s:Snapshot=rmp_serde::from_slice(&b).unwrap(); assert_eq!(s.counters().len(),1); }''')
bug(id="c15-pretty", property="C15", needs="a name with a line feed in a stream of JSON lines",
 breaks="the JSON encoding is no longer a single line",
 edits=[(S,"let mut res = serde_json::to_vec(val)?;","let mut res = serde_json::to_vec_pretty(val)?;")],
 demo='''fn main(){ let b=Snapshot::to_json(&s1(1,&[],vec![c("a",1,&[])],vec![],vec![])).unwrap(); assert_eq!(b.iter().filter(|x|**x==b'\\n').count(),1); }''')

bug(id="c16-field-order", property="C16", needs="reading a compact recording written by an earlier release",
 breaks="the order of duration and time in the compact layout of V2 changed on both sides",
 edits=[(S,'''pub struct SnapshotV2 {
    pub systemtime: SystemTime,
    pub duration: Duration,
''','''pub struct SnapshotV2 {
    pub duration: Duration,
    pub systemtime: SystemTime,
''')],
 demo='''fn main(){ let s=Snapshot::V2(SnapshotV2{systemtime:SystemTime::UNIX_EPOCH+Duration::from_secs(7),duration:Duration::from_secs(1),metadata:md(&[]),counters:vec![],gauges:vec![],histograms:vec![]});
 let b=stream(&[s]); // array of 6, [time [7,0], duration [1,0], ...
 assert_eq!(&b[..4],&[0x96,0x92,7,0]); }''')
bug(id="c16-deny", property="C16", needs="a JSON snapshot with an unknown extra field in a reading",
 breaks="readings with unknown fields are refused",
 edits=[(S,'''#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Gauge {''','''#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "serde", serde(deny_unknown_fields))]
pub struct Gauge {''')],
 demo='''fn main(){ let b=String::from_utf8(Snapshot::to_json(&s1(1,&[],vec![],vec![g("a",1,&[])],vec![])).unwrap()).unwrap(); let b=b.replace("\\"value\\"","\\"extra\\":[1],\\"value\\""); let _:Snapshot=serde_json::from_str(&b).unwrap(); }''')
bug(id="c16-no-default", property="C16", needs="a V2 recording in JSON written before snapshots had metadata",
 breaks="V2 snapshots without snapshot metadata no longer decode as V2",
 edits=[(S,'''    pub duration: Duration,

    #[cfg_attr(feature = "serde", serde(default))]''','''    pub duration: Duration,

    #[cfg_attr(feature = "serde", serde(alias = "labels"))]''')],
 demo='''fn main(){ let s=Snapshot::V2(SnapshotV2{systemtime:SystemTime::UNIX_EPOCH+Duration::from_secs(7),duration:Duration::from_secs(1),metadata:md(&[]),counters:vec![],gauges:vec![],histograms:vec![]});
 let b=String::from_utf8(Snapshot::to_json(&s).unwrap()).unwrap(); let b=b.replace("\\"metadata\\":{},",""); let s:Snapshot=serde_json::from_str(&b).unwrap(); assert_eq!(s.duration(),Some(Duration::from_secs(1))); }''')

bug(id="c17-micros", property="C17", needs="a snapshot time that is not a whole number of microseconds",
 breaks="the time column is rounded down to microseconds",
 edits=[(S,'''            .expect("System Clock is earlier than 1970; needs reset")
            .as_nanos() as u64;''','''            .expect("System Clock is earlier than 1970; needs reset")
            .as_micros() as u64
            * 1000;''')],
 demo='''fn main(){ let f=read(write(&[s1(1_234_567,&[],vec![],vec![],vec![])],ParquetOptions::new(),None)); let b=f.batch.unwrap(); assert_eq!(b.column(0).as_any().downcast_ref::<UInt64Array>().unwrap().value(0),1_234_567); }''')
bug(id="c17-empty-null", property="C17", needs="a histogram without any counts, in sparse form",
 breaks="an empty sparse histogram is written as null",
 edits=[(P,"let histogram = hs.histograms.remove(h).map(|v| v.value);","let histogram = hs.histograms.remove(h).map(|v| v.value).filter(|v| {\n                self.options.histogram_type == ParquetHistogramType::Standard\n                    || v.as_slice().iter().any(|c| *c != 0)\n            });")],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![],vec![],vec![h("h",vec![0;6])])],ParquetOptions::new().histogram_type(ParquetHistogramType::Sparse),None)); assert!(!f.batch.unwrap().column(2).is_null(0)); }''')
bug(id="c17-carry", property="C17", needs="a gauge that disappears and another row after it",
 breaks="a missing gauge is written as zero after the first row that had it... as a default",
 edits=[(P,'''                .gauges
                .remove(gauge)
                .map(|v| v.value)])));''','''                .gauges
                .remove(gauge)
                .map(|v| v.value)
                .or(hs.duration.map(|_| 0))])));''')],
 demo='''fn main(){ let v2=|g:Vec<mx::Gauge>|Snapshot::V2(SnapshotV2{systemtime:SystemTime::UNIX_EPOCH+Duration::from_secs(7),duration:Duration::from_secs(1),metadata:md(&[]),counters:vec![],gauges:g,histograms:vec![]});
 let f=read(write(&[v2(vec![g("g",1,&[])]),v2(vec![])],ParquetOptions::new(),None)); assert!(f.batch.unwrap().column(2).is_null(1)); }''')

bug(id="c18-pow2", property="C18", needs="a batch size that is not a power of two and more rows than that",
 breaks="row groups hold the next power of two of the batch size",
 edits=[(P,".set_max_row_group_size(options.max_batch_size)",".set_max_row_group_size(options.max_batch_size.next_power_of_two())")],
 demo='''fn main(){ let s:Vec<_>=(0..7).map(|i|s1(i,&[],vec![],vec![],vec![])).collect(); let f=read(write(&s,ParquetOptions::new().max_batch_size(3),None)); assert_eq!(f.groups,vec![3,3,1]); }''')
bug(id="c18-clamp", property="C18", needs="an out-of-range compression level",
 breaks="invalid compression levels are clamped instead of refused",
 edits=[(P,"inner: Compression::ZSTD(ZstdLevel::try_new(level)?),","inner: Compression::ZSTD(ZstdLevel::try_new(level.clamp(1, 22))?),")],
 demo='''fn main(){ assert!(ParquetCompression::zstd(0).is_err()); assert!(ParquetCompression::zstd(23).is_err()); }''')
bug(id="c18-flush-sparse", property="C18", needs="sparse histograms and several rows",
 breaks="in sparse form every row is flushed into a row group of its own",
 edits=[(P,"        self.writer.write(&batch)\n","        self.writer.write(&batch)?;\n        if self.options.histogram_type == ParquetHistogramType::Sparse && self.histograms.len() > 1 {\n            self.writer.flush()?;\n        }\n        Ok(())\n")],
 demo='''fn main(){ let s:Vec<_>=(0..3).map(|i|s1(i,&[],vec![],vec![],vec![h("a",vec![0;6]),h("b",vec![1;6])])).collect(); let f=read(write(&s,ParquetOptions::new().histogram_type(ParquetHistogramType::Sparse),None)); assert_eq!(f.groups,vec![3]); }''')

bug(id="c19-hash-order", property="C19", needs="two or more ordinary labels",
 breaks="the remaining labels are appended in map iteration order, so one metric gets several columns",
 edits=[(S,"    let metadata: BTreeMap<&str, &str> = metadata","    let metadata: HashMap<&str, &str> = metadata"),(S,"use std::collections::{BTreeMap, HashMap, HashSet};","use std::collections::{HashMap, HashSet};")],
 demo='''fn main(){ for _ in 0..20 { let f=read(write(&[s1(1,&[],vec![c("x",1,&[("metric","m"),("b","2"),("a","1"),("d","4"),("c","3")])],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.cols[2],"m/1/2/3/4"); } }''')
bug(id="c19-id-twice", property="C19", needs="a labelled metric with an id",
 breaks="the id is also listed among the other labels",
 edits=[(S,'["metric", "unit", "grouping_power", "max_value_power", "id"].into();','["metric", "unit", "grouping_power", "max_value_power"].into();')],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![c("x",1,&[("metric","m"),("id","2"),("z","1")])],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.cols[2],"m/1/2"); }''')
bug(id="c19-writer-name", property="C19", needs="a labelled gauge whose reading name differs from its labels",
 breaks="the writer looks gauges up by reading name while the schema names them by labels, so the column stays null",
 edits=[(S,'''            snapshot
                .gauges()
                .into_iter()
                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),''','''            snapshot
                .gauges()
                .into_iter()
                .map(|v| (v.name.clone(), v)),''')],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![],vec![g("x",1,&[("metric","m"),("id","2")])],vec![])],ParquetOptions::new(),None)); assert!(!f.batch.unwrap().column(2).is_null(0)); }''')

bug(id="c20-last-seen", property="C20", needs="a gauge whose metadata changes between snapshots",
 breaks="a gauge column is annotated with the last metadata seen",
 edits=[(P,"self.gauges.entry(name).or_insert(gauge.metadata);","self.gauges.insert(name, gauge.metadata);")],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![],vec![g("x",1,&[("k","1")])],vec![]),s1(2,&[],vec![],vec![g("x",1,&[("k","2")])],vec![])],ParquetOptions::new(),None)); assert_eq!(f.fields[2]["k"],"1"); }''')
bug(id="c20-precedence", property="C20", needs="caller metadata with a key the recording also has",
 breaks="the recording's metadata overrides the caller's",
 edits=[(P,"        self.metadata.extend(metadata.unwrap_or_default());\n","        let mut merged = metadata.unwrap_or_default();\n        merged.extend(self.metadata);\n        self.metadata = merged;\n")],
 demo='''fn main(){ let f=read(write(&[s1(1,&[("k","1")],vec![],vec![],vec![])],ParquetOptions::new(),Some(md(&[("k","2")])))); assert_eq!(f.kv["k"],"2"); }''')
bug(id="c20-merge-all", property="C20", needs="two snapshots with different metadata",
 breaks="the file metadata is merged from all snapshots",
 edits=[(P,'''        if self.metadata.is_empty() && !snap_metadata.is_empty() {
            self.metadata = snap_metadata;
        }''','''        for (key, value) in snap_metadata {
            self.metadata.entry(key).or_insert(value);
        }''')],
 demo='''fn main(){ let f=read(write(&[s1(1,&[("k","1")],vec![],vec![],vec![]),s1(1,&[("l","1")],vec![],vec![],vec![])],ParquetOptions::new(),None)); assert!(!f.kv.contains_key("l")); }''')
bug(id="c20-type-kept", property="C20", needs="a counter whose own metadata has a metric_type key",
 breaks="a metric_type label of the metric hides the real type",
 edits=[(P,'metadata.insert("metric_type".to_string(), "counter".to_string());','metadata\n                .entry("metric_type".to_string())\n                .or_insert("counter".to_string());')],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![c("x",1,&[("metric_type","gauge")])],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.fields[2]["metric_type"],"counter"); }''')

bug(id="c21-first-group", property="C21", needs="more snapshots than the batch size",
 breaks="the converter returns the rows of the first row group only",
 edits=[(V,"Ok(metadata.num_rows)","Ok(metadata.row_groups.first().map_or(0, |group| group.num_rows))")],
 demo='''fn main(){ let s:Vec<_>=(0..5).map(|i|s1(i,&[],vec![],vec![],vec![])).collect(); let mut out=vec![]; let n=MsgpackToParquet::with_options(ParquetOptions::new().max_batch_size(2)).convert_file_handle(Cursor::new(stream(&s)),&mut out).unwrap(); assert_eq!(n,5); }''')
bug(id="c21-dedup", property="C21", needs="two consecutive snapshots with the same time",
 breaks="a snapshot with the same time as the one before is taken for a repetition and left out",
 edits=[(V,"            writer.push(s)?;\n","            if last == Some(s.systemtime()) {\n                continue;\n            }\n            last = Some(s.systemtime());\n            writer.push(s)?;\n"),
        (V,"        // Rewind file pointer and second pass for the actual metrics\n","        // Rewind file pointer and second pass for the actual metrics\n        let mut last = None;\n")],
 demo='''fn main(){ let s:Vec<_>=(0..3).map(|i|s1(5,&[],vec![c("a",i,&[])],vec![],vec![])).collect(); let mut out=vec![]; let n=MsgpackToParquet::new().convert_file_handle(Cursor::new(stream(&s)),&mut out).unwrap(); assert_eq!(n,3); }''')
bug(id="c21-path-meta", property="C21", needs="converting by path with caller metadata",
 breaks="conversion by path forgets the caller's metadata",
 edits=[(V,"self.convert_file_handle(File::open(input)?, File::create(output)?)","Self::with_options(self.parquet_options)\n            .convert_file_handle(File::open(input)?, File::create(output)?)")],
 demo='''fn main(){ let d=std::env::temp_dir().join(format!("seed-demo-d{}",std::process::id())); std::fs::create_dir_all(&d).unwrap(); std::fs::write(d.join("in"),stream(&[s1(5,&[],vec![],vec![],vec![])])).unwrap();
 MsgpackToParquet::new().metadata("k".into(),"v".into()).convert_file_path(d.join("in"),d.join("out")).unwrap(); let b=std::fs::read(d.join("out")).unwrap(); std::fs::remove_dir_all(&d).unwrap(); assert_eq!(read(b).kv.get("k").map(|s|s.as_str()),Some("v")); }''')

bug(id="c22-second-pass", property="C22", needs="a read failure during the second pass",
 breaks="an error while reading the second time ends the recording early and success is reported",
 edits=[(V,'''            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            writer.push(s)?;''','''            let Ok(s) = rmp_serde::from_read::<_, Snapshot>(&mut reader) else {
                break;
            };
            writer.push(s)?;''')],
 demo='''struct R(Cursor<Vec<u8>>,u32,usize); impl Read for R{ fn read(&mut self,b:&mut [u8])->Result<usize>{ if self.1>1 && self.0.position() as usize>=self.2 {return Err(Error::other("disk"));} let n=b.len().min(7); self.0.read(&mut b[..n]) } } impl Seek for R{ fn seek(&mut self,p:SeekFrom)->Result<u64>{ self.1+=1; self.0.seek(p) } }
fn main(){ let s:Vec<_>=(0..5).map(|i|s1(i,&[],vec![c("a",i,&[])],vec![],vec![])).collect(); let one=stream(&s[..1]).len();
 // in the second pass reading fails in the middle of the third snapshot
 let r=MsgpackToParquet::new().convert_file_handle(R(Cursor::new(stream(&s)),0,2*one+3),std::io::sink()); assert!(r.is_err()); }''')
bug(id="c22-tail", property="C22", needs="a recording cut inside its last snapshot",
 breaks="a truncated last snapshot is silently dropped",
 edits=[(V,'''            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            schema.push(s);''','''            let s: Snapshot = match rmp_serde::from_read(&mut reader) {
                Ok(s) => s,
                Err(_) if schema.rows > 0 && reader.fill_buf()?.is_empty() => break,
                Err(x) => return Err(ParquetError::External(Box::new(x))),
            };
            schema.push(s);'''),(V,'''            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            writer.push(s)?;''','''            match rmp_serde::from_read(&mut reader) {
                Ok(s) => writer.push(s)?,
                Err(_) if reader.fill_buf()?.is_empty() => break,
                Err(x) => return Err(ParquetError::External(Box::new(x))),
            }'''),(P,"    rows: usize,\n}","    pub(crate) rows: usize,\n}")],
 demo='''fn main(){ let s:Vec<_>=(0..3).map(|i|s1(i,&[],vec![c("a",i,&[])],vec![],vec![])).collect(); let mut b=stream(&s); b.truncate(b.len()-2); assert!(MsgpackToParquet::new().convert_file_handle(Cursor::new(b),std::io::sink()).is_err()); }''')
bug(id="c22-no-close", property="C22", needs="an output that fails only when the footer is written",
 breaks="a failure while finishing the file is not reported",
 edits=[(V,"        let metadata = writer.finalize()?;\n\n        Ok(metadata.num_rows)","        let rows = writer.rows();\n        match writer.finalize() {\n            Ok(metadata) => Ok(metadata.num_rows),\n            Err(ParquetError::External(_)) => Ok(rows),\n            Err(e) => Err(e),\n        }"),
        (P,"    /// Finish writing any buffered metrics and the parquet footer.\n","    pub(crate) fn rows(&self) -> i64 {\n        self.writer.flushed_row_groups().iter().map(|g| g.num_rows()).sum()\n    }\n\n    /// Finish writing any buffered metrics and the parquet footer.\n")],
 demo='''struct W<'a>(usize,&'a AtomicBool); impl<'a> Write for W<'a>{ fn write(&mut self,b:&[u8])->Result<usize>{ if self.0==0 { self.1.store(true,Ordering::SeqCst); return Err(Error::other("full"));} let n=b.len().min(self.0); self.0-=n; Ok(n) } fn flush(&mut self)->Result<()>{Ok(())} }
fn main(){ let s:Vec<_>=(0..4).map(|i|s1(i,&[],vec![c("a",i,&[])],vec![],vec![])).collect(); let mut full=vec![]; MsgpackToParquet::with_options(ParquetOptions::new().max_batch_size(1)).convert_file_handle(Cursor::new(stream(&s)),&mut full).unwrap();
 for n in 0..full.len() { let failed=AtomicBool::new(false); let r=MsgpackToParquet::with_options(ParquetOptions::new().max_batch_size(1)).convert_file_handle(Cursor::new(stream(&s)),W(n,&failed)); assert_eq!(r.is_err(),failed.load(Ordering::SeqCst),"{n}"); } }''')

bug(id="c24-new-view", property="C24", needs="registrations or drops while a snapshot is being taken",
 breaks="a fresh view is taken for every metric, so entries shift and one is skipped or read twice",
 edits=[(T,"        for metric in &metriken::metrics() {\n","        let count = metriken::metrics().iter().count();\n        for index in 0..count {\n            let metrics = metriken::metrics();\n            let Some(metric) = metrics.iter().nth(index) else {\n                break;\n            };\n")],
 demo='''use metriken::MetricBuilder as B;
fn main(){ let keep:Vec<_>=(0..40).map(|i|{ (B::new(format!("k{i}")).build(metriken::Counter::new()), B::new("t").build(metriken::Counter::new())) }).collect();
 let (keep,gone):(Vec<_>,Vec<_>)=keep.into_iter().unzip(); let stop=AtomicBool::new(false); let gone=std::sync::Mutex::new(gone);
 let bad=std::thread::scope(|s|{ for _ in 0..3 { s.spawn(||while !stop.load(Ordering::Relaxed){ let x=gone.lock().unwrap().pop(); drop(x); let n=B::new("t").build(metriken::Counter::new()); gone.lock().unwrap().insert(0,n); }); }
  let mut bad=0; for _ in 0..3000 { let mut s=Snapshotter::default().snapshot(); let mut n:Vec<_>=s.counters().into_iter().map(|c|c.name).filter(|n|n.starts_with('k')).collect(); n.sort(); let l=n.len(); n.dedup(); if l!=40 || n.len()!=40 { bad+=1; break; } } stop.store(true,Ordering::Relaxed); bad });
 drop(keep); assert_eq!(bad,0); }''')
bug(id="c24-two-reads", property="C24", needs="a gauge updated and restored between two reads of one snapshot",
 breaks="histogram readings are taken after the view is released, from a cached earlier load when the total is unchanged",
 edits=[(T,"                Some(Value::Counter(value)) => {\n","                Some(Value::Counter(value)) => {\n                    // settle: average out jitter between two reads\n                    let value = match metric.value() {\n                        Some(Value::Counter(again)) => value + again.saturating_sub(value) * 2,\n                        _ => value,\n                    };\n")],
 demo='''fn main(){ let m=metriken::MetricBuilder::new("a").build(metriken::Counter::new()); let stop=AtomicBool::new(false);
 let bad=std::thread::scope(|s|{ for _ in 0..4 { s.spawn(||while !stop.load(Ordering::Relaxed){ m.increment(); }); }
  let mut bad=0; let mut last=0; for _ in 0..200000 { let mut s=Snapshotter::default().snapshot(); let v=s.counters()[0].value; if v>m.value() || v<last { bad+=1; break; } last=v; } stop.store(true,Ordering::Relaxed); bad });
 assert_eq!(bad,0); }''')
