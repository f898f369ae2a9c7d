"""Second round of planted bugs in metriken-exposition."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("expo", os.path.join(os.path.dirname(os.path.abspath(__file__)), "expo.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
S, T, P, V, LIB = _m.S, _m.T, _m.P, _m.V, _m.LIB
BUGS = []
def bug(demo, **k):
    k["expo"]=True; k["demo"]=LIB+demo; BUGS.append(k)

bug(id="c21-no-truncate", property="C21", needs="an output path that already holds a longer file",
 breaks="converting onto an existing longer file leaves the old file's end in place",
 edits=[(V,"File::create(output)?","File::options().write(true).create(true).truncate(false).open(output)?")],
 demo='''fn main(){ let d=std::env::temp_dir().join(format!("seed-nt-{}",std::process::id())); std::fs::create_dir_all(&d).unwrap(); let (i,o)=(d.join("i"),d.join("o")); std::fs::write(&i,stream(&[s1(1,&[],vec![c("a",1,&[])],vec![],vec![])])).unwrap(); std::fs::write(&o,vec![7u8;100_000]).unwrap(); MsgpackToParquet::new().convert_file_path(&i,&o).unwrap(); let b=std::fs::read(&o).unwrap(); std::fs::remove_dir_all(&d).unwrap(); assert!(b.len()<100_000 && b.ends_with(b"PAR1")); }''')
bug(id="c22-boundary-error", property="C22", needs="an input whose reading fails exactly between two snapshots",
 breaks="an I/O error at a record boundary is taken for the end of the recording",
 edits=[(V,'''            schema.push(s);
        }
        let mut writer''','''            schema.push(s);
        }
        let rows = schema.rows();
        let mut writer'''),
        (V,'''        reader.rewind()?;
        while !reader.fill_buf()?.is_empty() {
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            schema.push(s);''','''        reader.rewind()?;
        while reader.fill_buf().is_ok_and(|b| !b.is_empty()) {
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            schema.push(s);'''),
        (V,'''        while !reader.fill_buf()?.is_empty() {
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            writer.push(s)?;''','''        for _ in 0..rows {
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            writer.push(s)?;'''),
        (P,'''    /// Finalize the schema and build a `ParquetWriter`.''','''    /// The number of snapshots seen.
    pub(crate) fn rows(&self) -> usize {
        self.rows
    }

    /// Finalize the schema and build a `ParquetWriter`.''')],
 demo='''struct Bad(Cursor<Vec<u8>>,u64);
impl Read for Bad{ fn read(&mut self,b:&mut [u8])->Result<usize>{ let left=self.1.saturating_sub(self.0.position()) as usize; if left==0 { return Err(Error::new(ErrorKind::Other,"disk")); } let n=b.len().min(left); self.0.read(&mut b[..n]) } }
impl Seek for Bad{ fn seek(&mut self,p:SeekFrom)->Result<u64>{ self.0.seek(p) } }
fn main(){ let s=s1(1,&[],vec![c("a",1,&[])],vec![],vec![]); let one=stream(&[s.clone()]).len() as u64; let r=MsgpackToParquet::new().convert_file_handle(Bad(Cursor::new(stream(&[s.clone(),s])),one),Vec::new()); assert!(r.is_err(),"{r:?}"); }''')
bug(id="c22-short-write", property="C22", needs="an output that fails at the very end, when the footer is written",
 breaks="a failure to finish the file is ignored and the rows are reported as written",
 edits=[(V,'''        let metadata = writer.finalize()?;

        Ok(metadata.num_rows)''','''        let rows = writer.rows();
        match writer.finalize() {
            Ok(metadata) => Ok(metadata.num_rows),
            // everything has been handed over by now
            Err(_) if rows > 0 => Ok(rows),
            Err(error) => Err(error),
        }'''),
  (P,'''    /// Finish writing any buffered metrics and the parquet footer.''','''    /// The number of rows handed over so far.
    pub(crate) fn rows(&self) -> i64 {
        let done: i64 = self.writer.flushed_row_groups().iter().map(|g| g.num_rows()).sum();
        done + self.writer.in_progress_rows() as i64
    }

    /// Finish writing any buffered metrics and the parquet footer.''')],
 demo='''struct Full(usize); impl Write for Full{ fn write(&mut self,b:&[u8])->Result<usize>{ if self.0<b.len() { return Err(Error::new(ErrorKind::Other,"full")); } self.0-=b.len(); Ok(b.len()) } fn flush(&mut self)->Result<()>{ Ok(()) } }
fn main(){ let s=s1(1,&[],vec![c("a",1,&[])],vec![],vec![]); for n in [4usize,8,50,100,200] { let r=MsgpackToParquet::new().convert_file_handle(Cursor::new(stream(&[s.clone(),s.clone()])),Full(n)); assert!(r.is_err(),"{n} {r:?}"); } }''')
bug(id="c19-value-sort", property="C19", needs="two metrics whose labels have the same values under different keys",
 breaks="remaining labels are appended in the order of their values, so swapped labels collide",
 edits=[(S,'''    for (k, v) in &metadata {
        if ignore.contains(*k) {
            continue;
        }
        unique_name = unique_name + "/" + v;
    }''','''    let mut rest: Vec<&str> = metadata
        .iter()
        .filter(|(k, _)| !ignore.contains(**k))
        .map(|(_, v)| *v)
        .collect();
    rest.sort_unstable();
    for v in rest {
        unique_name = unique_name + "/" + v;
    }''')],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![c("1",1,&[("metric","m"),("src","b"),("to","a")]),c("2",2,&[("metric","m"),("src","a"),("to","b")])],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.cols.len(),4,"{:?}",f.cols); }''')
bug(id="c19-empty-label", property="C19", needs="a label whose value is empty",
 breaks="labels with an empty value are left out of the column name",
 edits=[(S,'''        if ignore.contains(*k) {
            continue;''','''        if ignore.contains(*k) || v.is_empty() {
            continue;''')],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![c("1",1,&[("metric","m"),("x","")]),c("2",2,&[("metric","m")])],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.cols.len(),4,"{:?}",f.cols); }''')
bug(id="c17-zero-duration", property="C17", needs="a snapshot with a duration of zero",
 breaks="a zero duration is recorded as no duration",
 edits=[(S,"snapshot.duration().map(|x| x.as_nanos() as u64)","snapshot\n            .duration()\n            .map(|x| x.as_nanos() as u64)\n            .filter(|x| *x > 0)")],
 demo='''fn main(){ let s=Snapshot::V2(SnapshotV2{systemtime:SystemTime::UNIX_EPOCH,duration:Duration::ZERO,metadata:md(&[]),counters:vec![],gauges:vec![],histograms:vec![]}); let f=read(write(&[s],ParquetOptions::new(),None)); assert!(!f.batch.unwrap().column(1).is_null(0)); }''')
bug(id="c17-far-future", property="C17", needs="a snapshot taken after the year 2262",
 breaks="timestamps beyond the signed range are clamped",
 edits=[(S,'''            .as_nanos() as u64;

        let duration''','''            .as_nanos()
            .min(i64::MAX as u128) as u64;

        let duration''')],
 demo='''fn main(){ let t=10_000_000_000_000_000_000u64; let f=read(write(&[s1(t,&[],vec![],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.batch.unwrap().column(0).as_any().downcast_ref::<UInt64Array>().unwrap().value(0),t); }''')
bug(id="c17-trim-tail", property="C17", needs="a histogram whose last buckets are empty, in the standard representation",
 breaks="trailing empty buckets are not stored",
 edits=[(P,"columns.push(Self::listu64_entry_from_slice(hist.as_slice()))","{\n                        let buckets = hist.as_slice();\n                        let used = buckets.iter().rposition(|c| *c != 0).map_or(0, |i| i + 1);\n                        // whole groups only, so that readers can still tell the layout\n                        let group = 1usize << hist.config().grouping_power();\n                        let keep = used.next_multiple_of(group * 4).min(buckets.len());\n                        let keep = if buckets.len() > 1024 { keep } else { buckets.len() };\n                        columns.push(Self::listu64_entry_from_slice(&buckets[..keep]))\n                    }")],
 demo='''fn main(){ let mut hh=histogram::Histogram::new(7,64).unwrap(); hh.increment(5).unwrap(); let n=hh.as_slice().len(); let x=mx::Histogram{name:"h".into(),value:hh,metadata:md(&[])}; let f=read(write(&[s1(1,&[],vec![],vec![],vec![x])],ParquetOptions::new(),None)); let b=f.batch.unwrap(); let l=b.column(2).as_any().downcast_ref::<ListArray>().unwrap(); assert_eq!(l.value(0).len(),n); }''')
bug(id="c14-same-name", property="C14", needs="two metrics of the same kind and name with different metadata",
 breaks="of several counters with one name only the first is reported",
 edits=[(T,"                    counters.push(counter);","                    if counters.iter().all(|other| other.name != counter.name) {\n                        counters.push(counter);\n                    }")],
 demo='''fn main(){ let _a=metriken::MetricBuilder::new("x").metadata("k","1").build(metriken::Counter::new()); let _b=metriken::MetricBuilder::new("x").metadata("k","2").build(metriken::Counter::new()); assert_eq!(Snapshotter::default().snapshot().counters().len(),2); }''')
bug(id="c14-big-histogram", property="C14", needs="a histogram with more than 8192 buckets",
 breaks="histograms with very many buckets are left out of snapshots",
 edits=[(T,"                    if let Some(histogram) = histogram {","                    // keep snapshots reasonably small\n                    let histogram = histogram.filter(|h| h.as_slice().len() <= 8192);\n\n                    if let Some(histogram) = histogram {")],
 demo='''fn main(){ let h=metriken::AtomicHistogram::new(10,64); h.increment(1).unwrap(); let _m=metriken::MetricBuilder::new("x").build(h); assert_eq!(Snapshotter::default().snapshot().histograms().len(),1); }''')
bug(id="c14-reuse", property="C14", needs="two snapshots within a millisecond of each other, by snapshotters of one filter",
 breaks="a snapshot taken right after another one repeats it",
 edits=[(T,'''    pub fn snapshot(&self) -> Snapshot {
        let ts = SystemTime::now();''','''    pub fn snapshot(&self) -> Snapshot {
        // bursts of requests are served from the same readings
        type Recent = (usize, std::time::Instant, Snapshot);
        static RECENT: std::sync::Mutex<Option<Recent>> = std::sync::Mutex::new(None);

        let mut recent = RECENT.lock().unwrap_or_else(|e| e.into_inner());
        let key = self.filter as usize;
        match &*recent {
            Some((k, at, snapshot))
                if *k == key
                    && self.metadata.is_empty()
                    && at.elapsed() < std::time::Duration::from_micros(200) =>
            {
                return snapshot.clone();
            }
            _ => {}
        }

        let snapshot = self.take();
        *recent = Some((key, std::time::Instant::now(), snapshot.clone()));
        snapshot
    }

    fn take(&self) -> Snapshot {
        let ts = SystemTime::now();''')],
 demo='''fn main(){ let m=metriken::MetricBuilder::new("x").build(metriken::Counter::new()); let s=Snapshotter::default(); for i in 0..1000u64 { m.set(i); let v=s.snapshot().counters()[0].value; assert_eq!(v,i); } }''')
bug(id="c16-v2-default", property="C16", needs="a version 1 snapshot encoded with field names",
 breaks="a version 1 snapshot is read as a version 2 snapshot of zero duration",
 edits=[(S,"    pub duration: Duration,\n",'    #[cfg_attr(feature = "serde", serde(default))]\n    pub duration: Duration,\n')],
 demo='''fn main(){ let s=s1(1,&[],vec![],vec![],vec![]); let b=serde_json::to_vec(&s).unwrap(); let d:Snapshot=serde_json::from_slice(&b).unwrap(); assert!(d.duration().is_none()); }''')
bug(id="c18-zstd-clamp", property="C18", needs="a compression level that zstd does not have",
 breaks="an invalid compression level is accepted and replaced by the nearest valid one",
 edits=[(P,"ZstdLevel::try_new(level)?","ZstdLevel::try_new(level.clamp(1, 22))?")],
 demo='''fn main(){ assert!(ParquetCompression::zstd(23).is_err()); assert!(ParquetCompression::zstd(0).is_err()); }''')
bug(id="c18-none-small", property="C18", needs="no compression asked for, sparse histograms",
 breaks="asking for no compression is overridden where histograms are sparse",
 edits=[(P,"            .set_compression(options.compression.inner)","            .set_compression(match (options.histogram_type, options.compression.inner) {\n                // index columns are cheap to compress\n                (ParquetHistogramType::Sparse, Compression::UNCOMPRESSED) if !histograms.is_empty() => {\n                    Compression::ZSTD(ZstdLevel::default())\n                }\n                (_, compression) => compression,\n            })")],
 demo='''fn main(){ let b=write(&[s1(1,&[],vec![],vec![],vec![h("h",vec![1,2,3,4,5,6])])],ParquetOptions::new().compression(ParquetCompression::none()).histogram_type(ParquetHistogramType::Sparse),None); let tmp=std::env::temp_dir().join(format!("seed-cn-{}",std::process::id())); std::fs::write(&tmp,b).unwrap(); let f=std::fs::File::open(&tmp).unwrap(); std::fs::remove_file(&tmp).unwrap(); use parquet::file::reader::*; let r=SerializedFileReader::new(f).unwrap(); for c in r.metadata().row_group(0).columns() { assert_eq!(c.compression(),parquet::basic::Compression::UNCOMPRESSED); } }''')
bug(id="c20-drop-metric", property="C20", needs="a metric with its name in its metadata",
 breaks="the column's annotations lose the metric key that went into its name",
 edits=[(P,'''            metadata.insert("metric_type".to_string(), "gauge".to_string());''','''            metadata.insert("metric_type".to_string(), "gauge".to_string());
            // part of the column's name already
            if metadata.len() > 3 {
                metadata.remove("metric");
            }''')],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![],vec![g("0",1,&[("metric","m"),("a","1"),("unit","b")])],vec![])],ParquetOptions::new(),None)); assert_eq!(f.fields[2].get("metric").map(|s|&**s),Some("m")); }''')
bug(id="c21-meta-first", property="C21", needs="the same metadata key given twice to a converter",
 breaks="the first value given for a key stays",
 edits=[(V,"        self.metadata.insert(key, value);\n","        self.metadata.entry(key).or_insert(value);\n")],
 demo='''fn main(){ let mut out=vec![]; MsgpackToParquet::new().metadata("k".into(),"1".into()).metadata("k".into(),"2".into()).convert_file_handle(Cursor::new(stream(&[s1(1,&[],vec![],vec![],vec![])])),&mut out).unwrap(); assert_eq!(read(out).kv["k"],"2"); }''')
bug(id="c20-first-empty", property="C20", needs="a first snapshot without metadata and a later one with some",
 breaks="only the very first snapshot's own metadata reaches the file",
 edits=[(P,"if self.metadata.is_empty() && !snap_metadata.is_empty() {","if self.rows == 0 {")],
 demo='''fn main(){ let f=read(write(&[s1(1,&[],vec![],vec![],vec![]),s1(2,&[("k","v")],vec![],vec![],vec![])],ParquetOptions::new(),None)); assert_eq!(f.kv.get("k").map(|s|&**s),Some("v")); }''')
bug(id="c24-by-name", property="C24", needs="a metric dropped and another registered under its name while a snapshot is taken",
 breaks="the snapshot lists the metrics first and reads them through a second listing, by position",
 edits=[(T,'''        for metric in &metriken::metrics() {
            if !(self.filter)(metric) {
                continue;
            }
''','''        let wanted: Vec<bool> = metriken::metrics().iter().map(self.filter).collect();
        for (metric, wanted) in metriken::metrics().iter().zip(wanted) {
            if !wanted {
                continue;
            }
''')],
 demo='''fn f(e:&metriken::MetricEntry)->bool{ e.name().starts_with("keep") }
fn main(){ let done=AtomicBool::new(false); std::thread::scope(|s|{ let t=s.spawn(||{
 let _k:Vec<_>=(0..50).map(|i|metriken::MetricBuilder::new(format!("keep{i}")).build(metriken::Counter::new())).collect();
 let sn=SnapshotterBuilder::new().filter(f).build(); let mut bad=0; for _ in 0..30000 { let c=sn.snapshot().counters(); if c.len()!=50||c.iter().any(|c|!c.name.starts_with("keep")) { bad+=1; break; } } done.store(true,Ordering::Relaxed); bad });
 while !done.load(Ordering::Relaxed) { let _x:Vec<_>=(0..20).map(|i|metriken::MetricBuilder::new(format!("drop{i}")).build(metriken::Counter::new())).collect(); }
 assert_eq!(t.join().unwrap(),0); }); }''')
