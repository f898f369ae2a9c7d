//! C21, C22: converting MessagePack recordings to Parquet.
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, no_panic, CaseResult, Ctx, Obs};

use crate::codec::encode_msgpack;
use crate::model::*;
use crate::pq::Long;
use crate::table::*;

/// One scratch directory per process, removed when the case is done.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> io::Result<Scratch> {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vexpo-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p)?;
        Ok(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn encode(s: &mx::Snapshot, named: bool) -> Result<Vec<u8>, String> {
    if named {
        rmp_serde::to_vec_named(s).map_err(|e| e.to_string())
    } else {
        encode_msgpack(s, false)
    }
}

/// The stream of a recording and where each snapshot ends in it.
fn stream(rec: &Recording, named: &[bool]) -> Result<(Vec<u8>, Vec<usize>), String> {
    let mut out = vec![];
    let mut ends = vec![];
    for (i, s) in rec.0.iter().enumerate() {
        out.extend(encode(&s.real(), !named.is_empty() && named[i % named.len()])?);
        ends.push(out.len());
    }
    Ok((out, ends))
}

/// Reads at most `chunk` bytes at a time.
struct Chunked {
    data: Cursor<Vec<u8>>,
    sizes: Vec<usize>,
    at: usize,
}
impl Read for Chunked {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.sizes.is_empty() {
            return self.data.read(buf);
        }
        let n = self.sizes[self.at % self.sizes.len()].max(1).min(buf.len());
        self.at += 1;
        self.data.read(&mut buf[..n])
    }
}
impl Seek for Chunked {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.data.seek(p)
    }
}

/// Accepts at most `sizes` bytes at a time.
struct Short {
    out: Arc<Mutex<Vec<u8>>>,
    sizes: Vec<usize>,
    at: usize,
}
impl Write for Short {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = if self.sizes.is_empty() { buf.len() } else { self.sizes[self.at % self.sizes.len()].max(1).min(buf.len()) };
        self.at += 1;
        self.out.lock().unwrap().extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn converter(o: &Opts, caller: &Labels, plain: bool, earlier: Option<&str>) -> mx::MsgpackToParquet {
    let mut c = if plain { mx::MsgpackToParquet::new() } else { mx::MsgpackToParquet::with_options(o.real()) };
    if let Some(v) = earlier {
        // values that are replaced
        for k in caller.keys() {
            c = c.metadata(k.clone(), v.to_string());
        }
    }
    for (k, v) in caller {
        c = c.metadata(k.clone(), v.clone());
    }
    c
}

fn same(got: &Table, want: &Table) -> CaseResult {
    same_data(got, want)?;
    same_annotations(got, want)?;
    ensure_eq!(got.row_groups, want.row_groups, "row groups");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    rec: Recording,
    named: Vec<bool>,
    opts: Opts,
    caller: Labels,
    reads: Vec<usize>,
    writes: Vec<usize>,
    start: u16,
    by_path: bool,
    /// bytes already in the output file
    stale: usize,
    /// a value given first for every key of the caller's metadata
    #[serde(default)]
    earlier: Option<String>,
}

fn convert(c: &Conv, obs: &mut Obs) -> CaseResult {
    let plain = c.opts == Opts::plain();
    let (bytes, _) = stream(&c.rec, &c.named)?;
    let n = c.rec.0.len() as i64;
    let want = read(write(&c.rec, &c.opts, Some(&c.caller))?)?;
    let place = if c.start == u16::MAX { bytes.len() } else { (c.start as usize * (bytes.len() + 1)) >> 16 };

    let out = Arc::new(Mutex::new(vec![]));
    let mut data = Cursor::new(bytes.clone());
    data.set_position(place as u64);
    let r = Chunked { data, sizes: c.reads.clone(), at: 0 };
    let w = Short { out: out.clone(), sizes: c.writes.clone(), at: 0 };
    let conv = converter(&c.opts, &c.caller, plain, c.earlier.as_deref());
    let rows = no_panic("conversion", move || conv.convert_file_handle(r, w))?.map_err(|e| format!("conversion by handle failed: {e}"))?;
    ensure_eq!(rows, n, "rows reported by conversion by handle");
    let file = std::mem::take(&mut *out.lock().unwrap());
    let got = read(file).map_err(|e| format!("converted by handle: {e}"))?;
    same(&got, &want).map_err(|e| format!("converted by handle: {e}"))?;

    if c.by_path {
        let dir = Scratch::new().map_err(|e| e.to_string())?;
        let (i, o) = (dir.0.join("in"), dir.0.join("out"));
        std::fs::write(&i, &bytes).map_err(|e| e.to_string())?;
        if c.stale > 0 {
            std::fs::write(&o, vec![0x5a; c.stale]).map_err(|e| e.to_string())?;
        }
        let conv = converter(&c.opts, &c.caller, plain, None).clone();
        let rows = no_panic("conversion", || conv.convert_file_path(&i, &o))?.map_err(|e| format!("conversion by path failed: {e}"))?;
        ensure_eq!(rows, n, "rows reported by conversion by path");
        ensure!(std::fs::read(&i).map_err(|e| e.to_string())? == bytes, "the input file changed");
        let got = read(std::fs::read(&o).map_err(|e| e.to_string())?).map_err(|e| format!("converted by path: {e}"))?;
        same(&got, &want).map_err(|e| format!("converted by path: {e}"))?;
    }
    let readings: usize = c.rec.0.iter().map(|s| s.counters.len() + s.gauges.len() + s.histograms.len()).sum();
    obs.nontrivial(c.rec.0.len() >= 2 && readings >= 2);
    obs.label_if(c.rec.0.is_empty(), "empty stream");
    obs.label_if(bytes.len() > 8192, "longer than 8 KiB");
    obs.label_if(bytes.len() > 1 << 20, "longer than 1 MiB");
    obs.label_if(place != 0, "handle not at the start");
    obs.label_if(!c.reads.is_empty(), "short reads");
    obs.label_if(!c.writes.is_empty(), "short writes");
    obs.label_if(c.by_path, "by path too");
    Ok(())
}

fn sizes() -> BoxedStrategy<Vec<usize>> {
    let n = prop_oneof![3 => 1usize..4, 3 => 1usize..200, 1 => prop::sample::select(vec![4096usize, 8191, 8192, 8193])];
    prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(n, 1..4)].boxed()
}

fn conv_with(rec: BoxedStrategy<Recording>) -> BoxedStrategy<Conv> {
    (
        rec,
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(any::<bool>(), 1..4)],
        prop_oneof![1 => Just(Opts::plain()), 2 => crate::pq::opts()],
        prop_oneof![1 => Just(Labels::new()), 1 => gen::smap(3)],
        sizes(),
        sizes(),
        prop_oneof![2 => Just(0u16), 1 => Just(u16::MAX), 2 => any::<u16>()],
        prop_oneof![2 => Just(false), 1 => Just(true)],
        prop_oneof![1 => Just(0usize), 1 => Just(100_000usize), 1 => 1usize..500],
        proptest::option::of("[a-c]{0,2}"),
    )
        .prop_map(|(rec, named, opts, caller, reads, writes, start, by_path, stale, earlier)| Conv { rec, named, opts, caller, reads, writes, start, by_path, stale, earlier })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConvLong {
    long: Long,
    rest: Conv,
}

fn convert_long(c: &ConvLong, obs: &mut Obs) -> CaseResult {
    let mut conv = c.rest.clone();
    conv.rec = c.long.recording();
    convert(&conv, obs)
}

fn long(rows: BoxedStrategy<u32>, metrics: u32) -> BoxedStrategy<ConvLong> {
    (
        (rows, any::<u32>(), any::<u64>(), any::<bool>(), any::<bool>()).prop_map(move |(rows, m, seed, hist, v2)| Long { rows, metrics: m % metrics + 1, seed, hist, v2, late: seed % 2 == 0, heavy: None }),
        conv_with(Just(Recording(vec![])).boxed()),
    )
        .prop_map(|(long, mut rest)| {
            if let Some(b) = rest.opts.batch {
                rest.opts.batch = Some(b.max(20).max(long.rows as usize / 50));
            }
            if long.rows > 2000 {
                // single bytes would take all day
                for n in rest.reads.iter_mut().chain(&mut rest.writes) {
                    *n = *n * 50 + 7;
                }
            }
            ConvLong { long, rest }
        })
        .boxed()
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule("generated recordings encoded as compact and field-named MessagePack, converted by handle (reads and writes in pieces of generated sizes, handle at a generated position) and by path (over an older output file), against the same snapshots pushed to a schema and writer: rows, columns, cells, annotations, file metadata, row groups and the returned count; streams around and far past the reader's buffer. Non-trivial: at least two snapshots and two readings");
    ctx.assume("a handle is converted from its start, as the second of the two passes necessarily is");
    ctx.check_par("conversion", ctx.cases(12_000, 14), || conv_with(recording(8, true)), convert);
    ctx.check_par("long", ctx.cases(600, 8), || long((5u32..400).boxed(), 39), convert_long);
    // thousands of snapshots, megabytes of them
    let rows = || prop_oneof![2 => 1000u32..12_000, 1 => prop::sample::select(vec![4096u32, 4097, 10_000, 10_001, 16_385, 32_769, 65_537])].boxed();
    ctx.check_par("huge", ctx.cases(24, 6), move || long(rows(), 3), convert_long);
    ctx.check_par("wide", ctx.cases(24, 6), || long((2u32..30).boxed(), 3000), convert_long);
}

// ------------------------------------------------------------------ C22

/// Counts the operations of a handle and lets one of them fail.
#[derive(Default)]
struct Plan {
    ops: u64,
    fail_at: Option<u64>,
    /// from then on everything fails
    forever: bool,
    kind: Option<ErrorKind>,
    failed: bool,
    log: Vec<char>,
}
impl Plan {
    fn op(&mut self, what: char) -> io::Result<()> {
        let k = self.ops;
        self.ops += 1;
        if self.log.len() < 10_000 {
            self.log.push(what);
        }
        if self.fail_at.is_some_and(|f| k == f || (self.forever && k > f)) {
            self.failed = true;
            return Err(io::Error::new(self.kind.unwrap_or(ErrorKind::Other), "injected"));
        }
        Ok(())
    }
}

type Shared = Arc<Mutex<Plan>>;

struct BadRead {
    inner: Chunked,
    plan: Shared,
}
impl Read for BadRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.plan.lock().unwrap().op('r')?;
        self.inner.read(buf)
    }
}
impl Seek for BadRead {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.plan.lock().unwrap().op('s')?;
        self.inner.seek(p)
    }
}
struct BadWrite {
    inner: Short,
    plan: Shared,
    /// accepts nothing instead of failing
    zero: bool,
}
impl Write for BadWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.plan.lock().unwrap().op('w') {
            Err(_) if self.zero => return Ok(0),
            r => r?,
        }
        self.inner.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.plan.lock().unwrap().op('f')?;
        self.inner.flush()
    }
}

const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::StorageFull,
    ErrorKind::Interrupted,
];

struct Ran {
    result: Result<i64, String>,
    plan: Plan,
    out: Vec<u8>,
}

fn run(bytes: &[u8], o: &Opts, reads: &[usize], writes: &[usize], plan: Plan, zero: bool) -> Result<Ran, String> {
    let plan: Shared = Arc::new(Mutex::new(plan));
    let out = Arc::new(Mutex::new(vec![]));
    let r = BadRead { inner: Chunked { data: Cursor::new(bytes.to_vec()), sizes: reads.to_vec(), at: 0 }, plan: plan.clone() };
    let w = BadWrite { inner: Short { out: out.clone(), sizes: writes.to_vec(), at: 0 }, plan: plan.clone(), zero };
    let conv = converter(o, &Labels::new(), false, None);
    let result = no_panic("conversion", move || conv.convert_file_handle(r, w))?.map_err(|e| e.to_string());
    let plan = std::mem::take(&mut *plan.lock().unwrap());
    let out = std::mem::take(&mut *out.lock().unwrap());
    Ok(Ran { result, plan, out })
}

/// Success means a complete, valid file.
fn good(ran: &Ran, n: usize, want: Option<&Table>) -> CaseResult {
    let Ok(rows) = &ran.result else { return Ok(()) };
    ensure_eq!(*rows, n as i64, "rows reported");
    let t = read(ran.out.clone()).map_err(|e| format!("conversion reported success, but {e}"))?;
    ensure_eq!(t.rows(), n, "rows in the file");
    if let Some(w) = want {
        same(&t, w).map_err(|e| format!("conversion reported success, but {e}"))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    rec: Recording,
    opts: Opts,
    reads: Vec<usize>,
    writes: Vec<usize>,
    kind: usize,
    forever: bool,
    zero: bool,
}

fn io_faults(c: &Faulty, obs: &mut Obs) -> CaseResult {
    let (bytes, _) = stream(&c.rec, &[])?;
    let n = c.rec.0.len();
    let clean = run(&bytes, &c.opts, &c.reads, &c.writes, Plan::default(), false)?;
    let want = read(write(&c.rec, &c.opts, None)?)?;
    ensure!(clean.result.is_ok(), "conversion without any fault failed: {:?}", clean.result);
    good(&clean, n, Some(&want))?;
    let ops = clean.plan.ops;
    // every operation in turn, or an even spread over very many
    let step = (ops / 400).max(1);
    let kind = KINDS[c.kind % KINDS.len()];
    let mut seen = [false; 4];
    let mut k = 0;
    while k < ops {
        let what = clean.plan.log.get(k as usize).copied().unwrap_or('?');
        if let Some(i) = ['r', 's', 'w', 'f'].iter().position(|x| *x == what) {
            seen[i] = true;
        }
        let plan = Plan { fail_at: Some(k), forever: c.forever, kind: Some(kind), ..Plan::default() };
        // an interruption forever is retried forever
        let plan = Plan { forever: c.forever && kind != ErrorKind::Interrupted, ..plan };
        let ran = run(&bytes, &c.opts, &c.reads, &c.writes, plan, c.zero).map_err(|e| format!("with {kind:?} at operation {k} of {ops} ({what}): {e}"))?;
        // the standard library retries interrupted reads and writes
        let may_recover = kind == ErrorKind::Interrupted && !(c.zero && what == 'w');
        if ran.plan.failed && !may_recover {
            ensure!(ran.result.is_err(), "operation {k} of {ops} ({what}) failed with {kind:?}{}, and conversion reported {:?}", if c.zero { " or accepted nothing" } else { "" }, ran.result);
        }
        good(&ran, n, Some(&want)).map_err(|e| format!("with {kind:?} at operation {k} of {ops} ({what}): {e}"))?;
        obs.extra_evals(1);
        k += step;
    }
    obs.nontrivial(seen[0] && seen[2]);
    obs.label_if(seen[0], "faults in reads");
    obs.label_if(seen[1], "faults in seeks");
    obs.label_if(seen[2], "faults in writes");
    obs.label_if(seen[3], "faults in flushes");
    let first_write = clean.plan.log.iter().position(|x| *x == 'w').unwrap_or(usize::MAX);
    obs.label_if(clean.plan.log.iter().rposition(|x| *x == 'r').is_some_and(|r| r > first_write), "faults in writes before the last read");
    obs.label_if(step > 1, "operations sampled");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    rec: Recording,
    named: bool,
    opts: Opts,
    reads: Vec<usize>,
}

fn truncation(c: &Cut, obs: &mut Obs) -> CaseResult {
    let (bytes, ends) = stream(&c.rec, &[c.named])?;
    let step = (bytes.len() / 1500).max(1);
    for cut in (0..bytes.len()).step_by(step).chain(ends.iter().map(|e| e - 1)).chain(ends.iter().copied()) {
        let ran = run(&bytes[..cut], &c.opts, &c.reads, &[], Plan::default(), false).map_err(|e| format!("truncated to {cut} of {} bytes: {e}", bytes.len()))?;
        let whole = if cut == 0 { Some(0) } else { ends.iter().position(|e| *e == cut).map(|i| i + 1) };
        match whole {
            Some(n) => {
                ensure!(ran.result.is_ok(), "the first {n} snapshots alone do not convert: {:?}", ran.result);
                let want = read(write(&Recording(c.rec.0[..n].to_vec()), &c.opts, None)?)?;
                good(&ran, n, Some(&want))?;
            }
            None => ensure!(ran.result.is_err(), "a stream cut inside a snapshot (at {cut} of {} bytes) converts: {:?}", bytes.len(), ran.result),
        }
        obs.extra_evals(1);
    }
    obs.nontrivial(c.rec.0.len() >= 2);
    obs.label_if(step > 1, "positions sampled");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    /// change bytes: (where, xor)
    Flip(Vec<(u32, u8)>),
    Append(Vec<u8>),
    Insert(u32, Vec<u8>),
    Remove(u32, u8),
    /// nothing but these bytes
    Only(Vec<u8>),
    /// swap two ranges of the stream
    Overwrite(u32, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    rec: Recording,
    named: bool,
    opts: Opts,
    reads: Vec<usize>,
    damage: Damage,
}

fn decode_all(bytes: &[u8]) -> Option<Vec<mx::Snapshot>> {
    let mut cur = Cursor::new(bytes);
    let mut out = vec![];
    while (cur.position() as usize) < bytes.len() {
        out.push(rmp_serde::from_read::<_, mx::Snapshot>(&mut cur).ok()?);
    }
    Some(out)
}

fn damaged(c: &Damaged, obs: &mut Obs) -> CaseResult {
    let (mut bytes, _) = stream(&c.rec, &[c.named])?;
    let at = |p: u32, n: usize| ((p as u64 * (n as u64 + 1)) >> 32) as usize;
    match &c.damage {
        Damage::Flip(v) => {
            for (p, x) in v {
                let n = bytes.len();
                if n > 0 {
                    bytes[at(*p, n - 1)] ^= x;
                }
            }
        }
        Damage::Append(v) => bytes.extend(v),
        Damage::Insert(p, v) => {
            let i = at(*p, bytes.len());
            bytes.splice(i..i, v.iter().copied());
        }
        Damage::Remove(p, n) => {
            let i = at(*p, bytes.len());
            let j = (i + *n as usize).min(bytes.len());
            bytes.drain(i..j);
        }
        Damage::Only(v) => bytes = v.clone(),
        Damage::Overwrite(p, v) => {
            let i = at(*p, bytes.len());
            for (k, b) in v.iter().enumerate() {
                if i + k < bytes.len() {
                    bytes[i + k] = *b;
                }
            }
        }
    }
    let decodes = no_panic("decoding", || decode_all(&bytes)).unwrap_or(None);
    let ran = run(&bytes, &c.opts, &c.reads, &[], Plan::default(), false)?;
    match decodes {
        None => ensure!(ran.result.is_err(), "a stream that does not decode ({} bytes) converts: {:?}", bytes.len(), ran.result),
        Some(s) => {
            // still a stream of snapshots, if perhaps others
            ensure!(ran.result.is_ok(), "a stream of {} snapshots does not convert: {:?}", s.len(), ran.result);
            good(&ran, s.len(), None)?;
            obs.label("still decodes");
        }
    }
    obs.nontrivial(ran.result.is_err());
    obs.label(match c.damage {
        Damage::Flip(_) => "bits changed",
        Damage::Append(_) => "bytes appended",
        Damage::Insert(..) => "bytes inserted",
        Damage::Remove(..) => "bytes removed",
        Damage::Only(_) => "arbitrary bytes",
        Damage::Overwrite(..) => "bytes overwritten",
    });
    Ok(())
}

/// The file itself cannot be opened or created, or is a directory.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Paths {
    rec: Recording,
    case: u8,
    bad: Vec<u8>,
}

fn paths(c: &Paths, obs: &mut Obs) -> CaseResult {
    let dir = Scratch::new().map_err(|e| e.to_string())?;
    let (bytes, _) = stream(&c.rec, &[])?;
    let (i, o) = (dir.0.join("in"), dir.0.join("out"));
    std::fs::write(&i, &bytes).map_err(|e| e.to_string())?;
    let (i, o) = match c.case % 6 {
        0 => (dir.0.join("missing"), o),
        1 => (dir.0.clone(), o),
        2 => (i, dir.0.join("no/such/dir")),
        3 => (i, dir.0.clone()),
        4 => (i, "/dev/full".into()),
        _ => {
            let mut b = bytes.clone();
            b.push(0xc1);
            b.extend(&c.bad);
            std::fs::write(&i, &b).map_err(|e| e.to_string())?;
            (i, o)
        }
    };
    let r = no_panic("conversion", || mx::MsgpackToParquet::new().convert_file_path(&i, &o))?;
    ensure!(r.is_err(), "conversion from {i:?} to {o:?} reported {r:?}");
    obs.nontrivial(true);
    Ok(())
}

fn cheap() -> BoxedStrategy<Opts> {
    (
        prop_oneof![3 => Just(Some(0)), 1 => Just(Some(1))],
        prop_oneof![1 => Just(None), 2 => (1usize..4).prop_map(Some)],
        any::<bool>(),
    )
        .prop_map(|(compression, batch, s)| Opts { compression, batch, sparse: Some(s) })
        .boxed()
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule("(io) a clean conversion is traced, then repeated with every single read, seek, write and flush failing in turn (every error kind, once or for good, or a write accepting nothing); (truncation) the stream cut at every byte; (damage) bits changed, bytes inserted, removed, overwritten or appended, and arbitrary bytes, judged by decoding the stream independently of the converter; (paths) unusable files. evaluations counts the runs; non-trivial: both reads and writes were made to fail, at least two snapshots (truncation), the damage was reported");
    ctx.assume("an interrupted operation may be retried, after which the result must be complete; whether damaged bytes still form snapshots is decided with rmp-serde");
    ctx.check_par(
        "io",
        ctx.cases(1000, 14),
        || {
            (recording(4, true), cheap(), sizes(), sizes(), 0usize..KINDS.len(), any::<bool>(), prop_oneof![4 => Just(false), 1 => Just(true)])
                .prop_map(|(rec, opts, reads, writes, kind, forever, zero)| Faulty { rec, opts, reads, writes, kind, forever, zero })
        },
        io_faults,
    );
    ctx.check_par(
        "io-long",
        ctx.cases(50, 10),
        || {
            ((5u32..120, 1u32..20, any::<u64>()).prop_map(|(rows, metrics, seed)| Long { rows, metrics, seed, hist: true, v2: true, late: false, heavy: None }), cheap(), 0usize..KINDS.len(), any::<bool>())
                .prop_map(|(l, mut opts, kind, forever)| {
                    opts.batch = opts.batch.map(|b| b * 20);
                    (l, Faulty { rec: Recording(vec![]), opts, reads: vec![], writes: vec![], kind, forever, zero: false })
                })
        },
        |c: &(Long, Faulty), obs| {
            let mut f = c.1.clone();
            f.rec = c.0.recording();
            io_faults(&f, obs)
        },
    );
    ctx.check_par(
        "truncation",
        ctx.cases(400, 12),
        || (recording(4, true), any::<bool>(), cheap(), sizes()).prop_map(|(rec, named, opts, reads)| Cut { rec, named, opts, reads }),
        truncation,
    );
    let bytes = |n: usize| {
        prop_oneof![
            2 => proptest::collection::vec(any::<u8>(), 1..n),
            1 => proptest::collection::vec(prop::sample::select(vec![0u8, 0x7f, 0x80, 0x85, 0x90, 0x95, 0x96, 0xa0, 0xc0, 0xc1, 0xcf, 0xd3, 0xdc, 0xdd, 0xde, 0xdf, 0xdb, 0xc6, 0xff]), 1..n),
        ]
    };
    ctx.check_par(
        "damage",
        ctx.cases(60_000, 20),
        move || {
            let damage = prop_oneof![
                4 => proptest::collection::vec((any::<u32>(), prop_oneof![any::<u8>(), (0u32..8).prop_map(|b| 1 << b)]), 1..4).prop_map(Damage::Flip),
                2 => bytes(12).prop_map(Damage::Append),
                2 => (any::<u32>(), bytes(6)).prop_map(|(p, v)| Damage::Insert(p, v)),
                2 => (any::<u32>(), 1u8..9).prop_map(|(p, n)| Damage::Remove(p, n)),
                1 => bytes(40).prop_map(Damage::Only),
                2 => (any::<u32>(), bytes(9)).prop_map(|(p, v)| Damage::Overwrite(p, v)),
            ];
            (recording(3, true), any::<bool>(), cheap(), sizes(), damage).prop_map(|(rec, named, opts, reads, damage)| Damaged { rec, named, opts, reads, damage })
        },
        damaged,
    );
    // damage far into a long stream
    ctx.check_par(
        "damage-long",
        ctx.cases(48, 10),
        move || {
            let damage = prop_oneof![
                2 => (prop_oneof![3000_000_000u32.., any::<u32>()], prop_oneof![any::<u8>(), (0u32..8).prop_map(|b| 1 << b)]).prop_map(|f| Damage::Flip(vec![f])),
                2 => bytes(12).prop_map(Damage::Append),
                1 => (any::<u32>(), 1u8..9).prop_map(|(p, n)| Damage::Remove(p, n)),
                1 => (u32::MAX - 40_000.., 1u8..9).prop_map(|(p, n)| Damage::Remove(p, n)),
            ];
            (500u32..9000, any::<u64>(), any::<bool>(), cheap(), damage).prop_map(|(rows, seed, named, mut opts, damage)| {
                opts.batch = opts.batch.map(|b| b * 500);
                (Long { rows, metrics: 1, seed, hist: true, v2: seed % 2 == 0, late: true, heavy: None }, Damaged { rec: Recording(vec![]), named, opts, reads: vec![], damage })
            })
        },
        |c: &(Long, Damaged), obs| {
            let mut d = c.1.clone();
            d.rec = c.0.recording();
            damaged(&d, obs)
        },
    );
    ctx.check_par("paths", ctx.cases(240, 5), || (recording(3, true), any::<u8>(), proptest::collection::vec(any::<u8>(), 0..6)).prop_map(|(rec, case, bad)| Paths { rec, case, bad }), paths);
}
