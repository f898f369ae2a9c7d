//! C15: round trips; C16: the published wire layout.
use std::io::Cursor;

use metriken_exposition as mx;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, gen, CaseResult, Ctx, Obs};

use crate::model::*;

// ------------------------------------------------------------------ C15

fn encode_json(s: &mx::Snapshot, direct: bool) -> Result<Vec<u8>, String> {
    let r = if direct {
        match s {
            mx::Snapshot::V1(s) => mx::Snapshot::to_json(s),
            mx::Snapshot::V2(s) => mx::Snapshot::to_json(s),
        }
    } else {
        mx::Snapshot::to_json(s)
    };
    r.map_err(|e| format!("encoding as JSON failed: {e}"))
}

pub fn encode_msgpack(s: &mx::Snapshot, direct: bool) -> Result<Vec<u8>, String> {
    let r = if direct {
        match s {
            mx::Snapshot::V1(s) => mx::Snapshot::to_msgpack(s),
            mx::Snapshot::V2(s) => mx::Snapshot::to_msgpack(s),
        }
    } else {
        mx::Snapshot::to_msgpack(s)
    };
    r.map_err(|e| format!("encoding as MessagePack failed: {e}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trip {
    snaps: Vec<S>,
    direct: bool,
}

fn trip(c: &Trip, obs: &mut Obs) -> CaseResult {
    let mut json = vec![];
    let mut pack = vec![];
    for s in &c.snaps {
        let real = s.real();
        let want = s.norm();
        let j = encode_json(&real, c.direct)?;
        let p = encode_msgpack(&real, c.direct)?;
        diff(&norm(&real), &want).map_err(|e| format!("encoding changed the snapshot: {e}"))?;
        ensure_eq!(j.iter().filter(|b| **b == b'\n').count(), 1, "newlines in the JSON form");
        ensure_eq!(j.last(), Some(&b'\n'), "last byte of the JSON form");
        let text = std::str::from_utf8(&j).map_err(|_| "the JSON form is not UTF-8")?;
        ensure!(!text.contains('\r'), "the JSON form has a carriage return");
        let back: mx::Snapshot = serde_json::from_slice(&j).map_err(|e| format!("the JSON form does not decode: {e}"))?;
        diff(&norm(&back), &want).map_err(|e| format!("through JSON: {e}"))?;
        let back: mx::Snapshot = serde_json::from_str(text).map_err(|e| format!("the JSON form does not decode from a string: {e}"))?;
        diff(&norm(&back), &want).map_err(|e| format!("through JSON text: {e}"))?;
        let back: mx::Snapshot = rmp_serde::from_slice(&p).map_err(|e| format!("the MessagePack form does not decode: {e}"))?;
        diff(&norm(&back), &want).map_err(|e| format!("through MessagePack: {e}"))?;
        // and again, from what was decoded
        let p2 = encode_msgpack(&back, !c.direct)?;
        let again: mx::Snapshot = rmp_serde::from_slice(&p2).map_err(|e| format!("second MessagePack form does not decode: {e}"))?;
        diff(&norm(&again), &want).map_err(|e| format!("through MessagePack twice: {e}"))?;
        // the version structs decode themselves
        match s.duration {
            None => {
                let v: mx::SnapshotV1 = rmp_serde::from_slice(&p).map_err(|e| format!("MessagePack as SnapshotV1: {e}"))?;
                diff(&norm(&mx::Snapshot::V1(v)), &want).map_err(|e| format!("MessagePack as SnapshotV1: {e}"))?;
                let v: mx::SnapshotV1 = serde_json::from_slice(&j).map_err(|e| format!("JSON as SnapshotV1: {e}"))?;
                diff(&norm(&mx::Snapshot::V1(v)), &want).map_err(|e| format!("JSON as SnapshotV1: {e}"))?;
            }
            Some(_) => {
                let v: mx::SnapshotV2 = rmp_serde::from_slice(&p).map_err(|e| format!("MessagePack as SnapshotV2: {e}"))?;
                diff(&norm(&mx::Snapshot::V2(v)), &want).map_err(|e| format!("MessagePack as SnapshotV2: {e}"))?;
                let v: mx::SnapshotV2 = serde_json::from_slice(&j).map_err(|e| format!("JSON as SnapshotV2: {e}"))?;
                diff(&norm(&mx::Snapshot::V2(v)), &want).map_err(|e| format!("JSON as SnapshotV2: {e}"))?;
            }
        }
        json.extend(j);
        pack.extend(p);
    }
    // streams
    let mut cur = Cursor::new(&pack[..]);
    for (i, s) in c.snaps.iter().enumerate() {
        let got: mx::Snapshot = rmp_serde::from_read(&mut cur).map_err(|e| format!("snapshot {i} of a MessagePack stream: {e}"))?;
        diff(&norm(&got), &s.norm()).map_err(|e| format!("snapshot {i} of a MessagePack stream: {e}"))?;
    }
    ensure_eq!(cur.position(), pack.len() as u64, "bytes used of the MessagePack stream");
    let mut it = serde_json::Deserializer::from_slice(&json).into_iter::<mx::Snapshot>();
    for (i, s) in c.snaps.iter().enumerate() {
        let got = it.next().ok_or("the JSON stream ends early")?.map_err(|e| format!("snapshot {i} of a JSON stream: {e}"))?;
        diff(&norm(&got), &s.norm()).map_err(|e| format!("snapshot {i} of a JSON stream: {e}"))?;
    }
    ensure!(it.next().is_none(), "the JSON stream has something left over");
    for (i, line) in json.split_inclusive(|b| *b == b'\n').enumerate() {
        let got: mx::Snapshot = serde_json::from_slice(line).map_err(|e| format!("line {i} of a JSON stream: {e}"))?;
        diff(&norm(&got), &c.snaps[i].norm()).map_err(|e| format!("line {i} of a JSON stream: {e}"))?;
    }
    // accessors hand out what the snapshot holds
    for s in &c.snaps {
        let mut r = s.real();
        let w = norm(&r);
        ensure_eq!(r.systemtime().duration_since(std::time::UNIX_EPOCH).unwrap_or_default(), w.time, "systemtime()");
        ensure_eq!(r.duration(), w.duration, "duration()");
        let (time, duration) = (r.systemtime(), r.duration());
        let (md, cs, gs, hs) = (r.metadata(), r.counters(), r.gauges(), r.histograms());
        let rebuilt = match duration {
            None => mx::Snapshot::V1(mx::SnapshotV1 { systemtime: time, metadata: md, counters: cs, gauges: gs, histograms: hs }),
            Some(duration) => mx::Snapshot::V2(mx::SnapshotV2 { systemtime: time, duration, metadata: md, counters: cs, gauges: gs, histograms: hs }),
        };
        diff(&norm(&rebuilt), &w).map_err(|e| format!("through the accessors: {e}"))?;
    }
    obs.nontrivial(c.snaps.iter().any(|s| !s.counters.is_empty() || !s.gauges.is_empty() || !s.histograms.is_empty()));
    obs.label_if(c.snaps.iter().any(|s| s.duration.is_some()), "has a V2 snapshot");
    obs.label_if(c.snaps.len() > 1, "a stream of several");
    obs.label_if(c.snaps.iter().any(|s| !s.histograms.is_empty()), "has a histogram");
    Ok(())
}

/// Larger snapshots: many readings, long strings, big histograms.
fn snapshot_big() -> BoxedStrategy<S> {
    (snapshot_any(), prop::sample::select(vec![15usize, 16, 17, 31, 32, 255, 256, 300, 65535, 65536]), 0u8..4, hist(false))
        .prop_map(|(mut s, n, which, h)| {
            match which {
                0 => {
                    let n = n.min(300);
                    s.counters = (0..n).map(|i| R { name: format!("c{i}"), value: (i as u64) << (i % 64), md: s.md.clone() }).collect();
                    s.gauges = (0..n).map(|i| R { name: format!("g{i}"), value: -(i as i64), md: Labels::new() }).collect();
                }
                1 => {
                    let long = "é\"x\n".repeat(n / 5) + &"x".repeat(n % 5);
                    s.counters.push(R { name: long.clone(), value: 1, md: [(long.clone(), long.clone())].into() });
                    s.md.insert("k".into(), long);
                }
                2 => s.md = (0..n.min(300)).map(|i| (format!("k{i}"), i.to_string())).collect(),
                _ => s.histograms.push(R { name: "h".into(), value: h, md: Labels::new() }),
            }
            s
        })
        .boxed()
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule("snapshots of both versions over the whole range of times, durations, names, values, labels and histograms (and large ones around the length classes of MessagePack), encoded through every entry point, decoded singly, as a stream and line by line; non-trivial when the snapshots hold at least one reading");
    ctx.assume("times are not before 1970 (SystemTime itself does not serialise those); a stream is decoded with rmp-serde and serde_json");
    ctx.check_par(
        "roundtrip",
        ctx.cases(40_000, 12),
        || (proptest::collection::vec(snapshot_any(), 1..4), any::<bool>()).prop_map(|(snaps, direct)| Trip { snaps, direct }),
        trip,
    );
    ctx.check_par(
        "large",
        ctx.cases(2500, 8),
        || (proptest::collection::vec(snapshot_big(), 1..3), any::<bool>()).prop_map(|(snaps, direct)| Trip { snaps, direct }),
        trip,
    );
}

// ------------------------------------------------------------------ C16

/// A message as the layout describes it.
#[derive(Clone, Debug)]
enum T {
    Int(i128),
    Str(String),
    Map(Vec<(String, String)>),
    Seq(Vec<T>),
    /// fields in the established order; open structs may carry unknown fields
    Struct(bool, Vec<(&'static str, T)>),
    /// something unknown
    Extra(V),
}

/// A MessagePack value.
#[derive(Clone, Debug, PartialEq)]
enum V {
    Nil,
    Bool(bool),
    Int(i128),
    F64(f64),
    Str(String),
    Bin(Vec<u8>),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn shuffle<X>(&mut self, v: &mut [X]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

const CONFIG: [&str; 8] =
    ["max", "grouping_power", "max_value_power", "cutoff_power", "cutoff_value", "lower_bin_count", "upper_bin_divisions", "upper_bin_count"];

fn hist_tree(h: &H) -> T {
    // the values of the configuration are the histogram crate's own business
    let v = serde_json::to_value(h.real()).expect("histogram as JSON");
    let cfg = CONFIG.iter().map(|k| (*k, T::Int(v["config"][*k].as_u64().expect("configuration field") as i128))).collect();
    let buckets = T::Seq(h.buckets().into_iter().map(|b| T::Int(b as i128)).collect());
    T::Struct(false, vec![("config", T::Struct(false, cfg)), ("buckets", buckets)])
}

fn labels_tree(m: &Labels) -> T {
    T::Map(m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
}

fn tree(s: &S, omit_md: bool) -> T {
    let reading = |name: &str, value: T, md: &Labels| {
        T::Struct(true, vec![("name", T::Str(name.into())), ("value", value), ("metadata", labels_tree(md))])
    };
    let mut f = vec![(
        "systemtime",
        T::Struct(false, vec![("secs_since_epoch", T::Int(s.time.0 as i128)), ("nanos_since_epoch", T::Int(s.time.1 as i128))]),
    )];
    if let Some(d) = s.duration {
        f.push(("duration", T::Struct(false, vec![("secs", T::Int(d.0 as i128)), ("nanos", T::Int(d.1 as i128))])));
    }
    if !omit_md {
        f.push(("metadata", labels_tree(&s.md)));
    }
    f.push(("counters", T::Seq(s.counters.iter().map(|r| reading(&r.name, T::Int(r.value as i128), &r.md)).collect())));
    f.push(("gauges", T::Seq(s.gauges.iter().map(|r| reading(&r.name, T::Int(r.value as i128), &r.md)).collect())));
    f.push(("histograms", T::Seq(s.histograms.iter().map(|r| reading(&r.name, hist_tree(&r.value), &r.md)).collect())));
    T::Struct(true, f)
}

/// How another producer writes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Style {
    seed: u64,
    shuffle: bool,
    extras: bool,
    /// use longer forms than necessary
    wide: bool,
    omit_md: bool,
}

fn extra(r: &mut Rng, depth: u32) -> V {
    match r.below(if depth > 2 { 6 } else { 8 }) {
        0 => V::Nil,
        1 => V::Bool(r.below(2) == 0),
        2 => V::Int(r.next() as i64 as i128),
        3 => V::Int(r.next() as i128),
        4 => V::F64(r.next() as f64 / 7.0),
        5 => V::Str("extra".repeat(r.below(20))),
        6 => V::Arr((0..r.below(4)).map(|_| extra(r, depth + 1)).collect()),
        _ => V::Map((0..r.below(4)).map(|i| (V::Str(format!("k{i}")), extra(r, depth + 1))).collect()),
    }
}

const UNKNOWN: [&str; 8] = ["unit", "hostname", "version", "Metadata", "values", "a", "", "systemtime_ns"];

fn arrange(open: bool, f: &[(&'static str, T)], st: &Style, r: &mut Rng) -> Vec<(String, T)> {
    let mut v: Vec<(String, T)> = f.iter().map(|(k, t)| (k.to_string(), t.clone())).collect();
    if st.extras && open {
        let mut used = vec![];
        for _ in 0..r.below(4) {
            let k = UNKNOWN[r.below(UNKNOWN.len())];
            if !used.contains(&k) {
                used.push(k);
                let at = r.below(v.len() + 1);
                let e = extra(r, 0);
                v.insert(at, (k.to_string(), T::Extra(e)));
            }
        }
    }
    if st.shuffle {
        r.shuffle(&mut v);
    }
    v
}

// --- MessagePack writer

fn put_len(out: &mut Vec<u8>, n: usize, fix: Option<(u8, usize)>, l8: Option<u8>, l16: u8, l32: u8, wide: bool, r: &mut Rng) {
    let extra = if wide { r.below(4) } else { 0 };
    let mut class = match n {
        _ if fix.is_some_and(|(_, max)| n <= max) => 0,
        _ if l8.is_some() && n <= 0xff => 1,
        _ if n <= 0xffff => 2,
        _ => 3,
    };
    class = (class + extra).min(3);
    if class == 1 && l8.is_none() {
        class = 2;
    }
    match class {
        0 => out.push(fix.unwrap().0 | n as u8),
        1 => out.extend([l8.unwrap(), n as u8]),
        2 => {
            out.push(l16);
            out.extend((n as u16).to_be_bytes());
        }
        _ => {
            out.push(l32);
            out.extend((n as u32).to_be_bytes());
        }
    }
}

fn put_int(out: &mut Vec<u8>, i: i128, wide: bool, r: &mut Rng) {
    // a non-negative number may also be written in a signed form
    if i >= 0 {
        let u = i as u64;
        if wide && r.below(3) == 0 && u <= i64::MAX as u64 {
            out.push(0xd3);
            out.extend((u as i64).to_be_bytes());
            return;
        }
        let need = match u {
            0..=0x7f => 0,
            0x80..=0xff => 1,
            0x100..=0xffff => 2,
            0x1_0000..=0xffff_ffff => 3,
            _ => 4,
        };
        match (need + if wide { r.below(5) } else { 0 }).min(4) {
            0 => out.push(u as u8),
            1 => out.extend([0xcc, u as u8]),
            2 => {
                out.push(0xcd);
                out.extend((u as u16).to_be_bytes());
            }
            3 => {
                out.push(0xce);
                out.extend((u as u32).to_be_bytes());
            }
            _ => {
                out.push(0xcf);
                out.extend(u.to_be_bytes());
            }
        }
    } else {
        let s = i as i64;
        let need = match s {
            -32..=-1 => 0,
            -128..=-33 => 1,
            -32768..=-129 => 2,
            -2147483648..=-32769 => 3,
            _ => 4,
        };
        match (need + if wide { r.below(5) } else { 0 }).min(4) {
            0 => out.push(s as i8 as u8),
            1 => out.extend([0xd0, s as i8 as u8]),
            2 => {
                out.push(0xd1);
                out.extend((s as i16).to_be_bytes());
            }
            3 => {
                out.push(0xd2);
                out.extend((s as i32).to_be_bytes());
            }
            _ => {
                out.push(0xd3);
                out.extend(s.to_be_bytes());
            }
        }
    }
}

fn put_str(out: &mut Vec<u8>, s: &str, wide: bool, r: &mut Rng) {
    put_len(out, s.len(), Some((0xa0, 31)), Some(0xd9), 0xda, 0xdb, wide, r);
    out.extend(s.as_bytes());
}

fn put_value(out: &mut Vec<u8>, v: &V, wide: bool, r: &mut Rng) {
    match v {
        V::Nil => out.push(0xc0),
        V::Bool(b) => out.push(0xc2 + *b as u8),
        V::Int(i) => put_int(out, *i, wide, r),
        V::F64(f) => {
            out.push(0xcb);
            out.extend(f.to_be_bytes());
        }
        V::Str(s) => put_str(out, s, wide, r),
        V::Bin(b) => {
            put_len(out, b.len(), None, Some(0xc4), 0xc5, 0xc6, wide, r);
            out.extend(b);
        }
        V::Arr(a) => {
            put_len(out, a.len(), Some((0x90, 15)), None, 0xdc, 0xdd, wide, r);
            a.iter().for_each(|v| put_value(out, v, wide, r));
        }
        V::Map(m) => {
            put_len(out, m.len(), Some((0x80, 15)), None, 0xde, 0xdf, wide, r);
            for (k, v) in m {
                put_value(out, k, wide, r);
                put_value(out, v, wide, r);
            }
        }
    }
}

fn put_tree(out: &mut Vec<u8>, t: &T, named: bool, st: &Style, r: &mut Rng) {
    match t {
        T::Int(i) => put_int(out, *i, st.wide, r),
        T::Str(s) => put_str(out, s, st.wide, r),
        T::Map(m) => {
            let mut m = m.clone();
            r.shuffle(&mut m);
            put_len(out, m.len(), Some((0x80, 15)), None, 0xde, 0xdf, st.wide, r);
            for (k, v) in &m {
                put_str(out, k, st.wide, r);
                put_str(out, v, st.wide, r);
            }
        }
        T::Seq(s) => {
            put_len(out, s.len(), Some((0x90, 15)), None, 0xdc, 0xdd, st.wide, r);
            s.iter().for_each(|t| put_tree(out, t, named, st, r));
        }
        T::Struct(_, f) if !named => {
            put_len(out, f.len(), Some((0x90, 15)), None, 0xdc, 0xdd, st.wide, r);
            f.iter().for_each(|(_, t)| put_tree(out, t, named, st, r));
        }
        T::Struct(open, f) => {
            let f = arrange(*open, f, st, r);
            put_len(out, f.len(), Some((0x80, 15)), None, 0xde, 0xdf, st.wide, r);
            for (k, t) in &f {
                put_str(out, k, st.wide, r);
                put_tree(out, t, named, st, r);
            }
        }
        T::Extra(v) => put_value(out, v, st.wide, r),
    }
}

// --- JSON writer

fn json_str(out: &mut String, s: &str, st: &Style, r: &mut Rng) {
    if !st.wide {
        out.push_str(&serde_json::to_string(s).unwrap());
        return;
    }
    out.push('"');
    for c in s.chars() {
        if (c as u32) < 0x20 || c == '"' || c == '\\' || r.below(5) == 0 {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn gap(out: &mut String, st: &Style, r: &mut Rng) {
    if st.wide {
        out.push_str(["", " ", "\n", "\t", "\r\n"][r.below(5)]);
    }
}

fn json_value(out: &mut String, v: &V, st: &Style, r: &mut Rng) {
    match v {
        V::Nil => out.push_str("null"),
        V::Bool(b) => out.push_str(&b.to_string()),
        V::Int(i) => out.push_str(&i.to_string()),
        V::F64(f) => out.push_str(&serde_json::to_string(f).unwrap()),
        V::Str(s) => json_str(out, s, st, r),
        V::Bin(b) => json_value(out, &V::Arr(b.iter().map(|x| V::Int(*x as i128)).collect()), st, r),
        V::Arr(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json_value(out, v, st, r);
            }
            out.push(']');
        }
        V::Map(m) => {
            out.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json_value(out, k, st, r);
                out.push(':');
                json_value(out, v, st, r);
            }
            out.push('}');
        }
    }
}

fn json_tree(out: &mut String, t: &T, st: &Style, r: &mut Rng) {
    gap(out, st, r);
    match t {
        T::Int(i) => out.push_str(&i.to_string()),
        T::Str(s) => json_str(out, s, st, r),
        T::Map(m) => {
            let mut m = m.clone();
            r.shuffle(&mut m);
            json_tree_obj(out, m.into_iter().map(|(k, v)| (k, T::Str(v))).collect(), st, r);
        }
        T::Seq(s) => {
            out.push('[');
            for (i, t) in s.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json_tree(out, t, st, r);
            }
            out.push(']');
        }
        T::Struct(open, f) => {
            let f = arrange(*open, f, st, r);
            json_tree_obj(out, f, st, r);
        }
        T::Extra(v) => json_value(out, v, st, r),
    }
    gap(out, st, r);
}

fn json_tree_obj(out: &mut String, f: Vec<(String, T)>, st: &Style, r: &mut Rng) {
    out.push('{');
    for (i, (k, t)) in f.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        gap(out, st, r);
        json_str(out, k, st, r);
        gap(out, st, r);
        out.push(':');
        json_tree(out, t, st, r);
    }
    out.push('}');
}

// --- independent MessagePack reader

struct Reader<'a>(&'a [u8]);
impl Reader<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], String> {
        if self.0.len() < n {
            return Err("the encoding ends early".into());
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn uint(&mut self, n: usize) -> Result<u64, String> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn str(&mut self, n: usize) -> Result<V, String> {
        String::from_utf8(self.take(n)?.to_vec()).map(V::Str).map_err(|_| "text is not UTF-8".into())
    }
    fn arr(&mut self, n: usize) -> Result<V, String> {
        (0..n).map(|_| self.value()).collect::<Result<_, _>>().map(V::Arr)
    }
    fn map(&mut self, n: usize) -> Result<V, String> {
        (0..n).map(|_| Ok((self.value()?, self.value()?))).collect::<Result<_, String>>().map(V::Map)
    }
    fn value(&mut self) -> Result<V, String> {
        let b = self.take(1)?[0];
        Ok(match b {
            0..=0x7f => V::Int(b as i128),
            0xe0..=0xff => V::Int(b as i8 as i128),
            0x80..=0x8f => self.map((b & 15) as usize)?,
            0x90..=0x9f => self.arr((b & 15) as usize)?,
            0xa0..=0xbf => self.str((b & 31) as usize)?,
            0xc0 => V::Nil,
            0xc2 | 0xc3 => V::Bool(b == 0xc3),
            0xc4 | 0xc5 | 0xc6 => {
                let n = self.uint(1 << (b - 0xc4))? as usize;
                V::Bin(self.take(n)?.to_vec())
            }
            0xcb => V::F64(f64::from_bits(self.uint(8)?)),
            0xcc..=0xcf => V::Int(self.uint(1 << (b - 0xcc))? as i128),
            0xd0 => V::Int(self.uint(1)? as u8 as i8 as i128),
            0xd1 => V::Int(self.uint(2)? as u16 as i16 as i128),
            0xd2 => V::Int(self.uint(4)? as u32 as i32 as i128),
            0xd3 => V::Int(self.uint(8)? as i64 as i128),
            0xd9 | 0xda | 0xdb => {
                let n = self.uint(1 << (b - 0xd9))? as usize;
                self.str(n)?
            }
            0xdc | 0xdd => {
                let n = self.uint(2 << (b - 0xdc))? as usize;
                self.arr(n)?
            }
            0xde | 0xdf => {
                let n = self.uint(2 << (b - 0xde))? as usize;
                self.map(n)?
            }
            _ => return Err(format!("byte {b:#x} has no place in a snapshot")),
        })
    }
}

/// Does an encoded value follow the layout?
fn follows(v: &V, t: &T, at: &str) -> CaseResult {
    match (v, t) {
        (V::Int(a), T::Int(b)) => ensure_eq!(a, b, "{at}"),
        (V::Str(a), T::Str(b)) => ensure_eq!(a, b, "{at}"),
        (V::Map(m), T::Map(w)) => {
            let mut got: Vec<(String, String)> = vec![];
            for (k, x) in m {
                match (k, x) {
                    (V::Str(k), V::Str(x)) => got.push((k.clone(), x.clone())),
                    _ => return Err(format!("{at}: {k:?} = {x:?} is not a pair of strings")),
                }
            }
            got.sort();
            ensure_eq!(&got, w, "{at}");
        }
        (V::Arr(a), T::Seq(s)) => {
            ensure_eq!(a.len(), s.len(), "length of {at}");
            for (i, (v, t)) in a.iter().zip(s).enumerate() {
                follows(v, t, &format!("{at}[{i}]"))?;
            }
        }
        (V::Arr(a), T::Struct(_, f)) => {
            ensure_eq!(a.len(), f.len(), "fields of {at}");
            for (v, (k, t)) in a.iter().zip(f) {
                follows(v, t, &format!("{at}.{k}"))?;
            }
        }
        (V::Map(m), T::Struct(_, f)) => {
            ensure_eq!(m.len(), f.len(), "fields of {at}");
            for (k, t) in f {
                let hit: Vec<&V> = m.iter().filter(|(n, _)| matches!(n, V::Str(n) if n == k)).map(|(_, v)| v).collect();
                ensure_eq!(hit.len(), 1, "fields named {k} in {at}");
                follows(hit[0], t, &format!("{at}.{k}"))?;
            }
        }
        _ => return Err(format!("{at} is encoded as {v:?}")),
    }
    Ok(())
}

fn from_json(v: &serde_json::Value) -> V {
    use serde_json::Value as J;
    match v {
        J::Null => V::Nil,
        J::Bool(b) => V::Bool(*b),
        J::Number(n) => match (n.as_u64(), n.as_i64()) {
            (Some(u), _) => V::Int(u as i128),
            (_, Some(i)) => V::Int(i as i128),
            _ => V::F64(n.as_f64().unwrap_or(f64::NAN)),
        },
        J::String(s) => V::Str(s.clone()),
        J::Array(a) => V::Arr(a.iter().map(from_json).collect()),
        J::Object(o) => V::Map(o.iter().map(|(k, v)| (V::Str(k.clone()), from_json(v))).collect()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Foreign {
    snap: S,
    style: Style,
}

fn wanted(c: &Foreign) -> Norm {
    let mut want = c.snap.norm();
    if c.style.omit_md {
        want.md.clear();
    }
    want
}

fn class(c: &Foreign, obs: &mut Obs) {
    let s = &c.snap;
    obs.nontrivial(!s.counters.is_empty() || !s.gauges.is_empty() || !s.histograms.is_empty());
    obs.label_if(s.duration.is_some(), "V2");
    obs.label_if(c.style.shuffle, "fields shuffled");
    obs.label_if(c.style.extras, "unknown fields");
    obs.label_if(c.style.omit_md, "metadata absent");
    obs.label_if(c.style.wide, "longer forms");
}

fn read_msgpack(bytes: &[u8], want: &Norm, what: &str) -> CaseResult {
    let got: mx::Snapshot = rmp_serde::from_slice(bytes).map_err(|e| format!("{what} does not decode: {e}"))?;
    diff(&norm(&got), want).map_err(|e| format!("{what}: {e}"))?;
    let mut cur = Cursor::new(bytes);
    let got: mx::Snapshot = rmp_serde::from_read(&mut cur).map_err(|e| format!("{what} does not decode from a reader: {e}"))?;
    diff(&norm(&got), want).map_err(|e| format!("{what} from a reader: {e}"))?;
    ensure_eq!(cur.position(), bytes.len() as u64, "bytes of {what} used");
    Ok(())
}

fn named(c: &Foreign, obs: &mut Obs) -> CaseResult {
    class(c, obs);
    let mut out = vec![];
    put_tree(&mut out, &tree(&c.snap, c.style.omit_md), true, &c.style, &mut Rng(c.style.seed));
    read_msgpack(&out, &wanted(c), "field-named MessagePack")
}

fn compact(c: &Foreign, obs: &mut Obs) -> CaseResult {
    class(c, obs);
    let mut out = vec![];
    put_tree(&mut out, &tree(&c.snap, false), false, &c.style, &mut Rng(c.style.seed));
    read_msgpack(&out, &c.snap.norm(), "compact MessagePack")
}

fn json(c: &Foreign, obs: &mut Obs) -> CaseResult {
    class(c, obs);
    let mut out = String::new();
    json_tree(&mut out, &tree(&c.snap, c.style.omit_md), &c.style, &mut Rng(c.style.seed));
    let want = wanted(c);
    let got: mx::Snapshot = serde_json::from_str(&out).map_err(|e| format!("JSON does not decode: {e}"))?;
    diff(&norm(&got), &want).map_err(|e| format!("JSON: {e}"))?;
    let got: mx::Snapshot = serde_json::from_reader(out.as_bytes()).map_err(|e| format!("JSON does not decode from a reader: {e}"))?;
    diff(&norm(&got), &want).map_err(|e| format!("JSON from a reader: {e}"))?;
    Ok(())
}

/// Spoil one field of the tree; says what was done.
fn spoil(t: &mut T, r: &mut Rng, form: Form) -> String {
    let T::Struct(_, fields) = t else { unreachable!() };
    let lists = ["counters", "gauges", "histograms"];
    // a reading, if there is one
    let with: Vec<&str> = lists.iter().copied().filter(|k| fields.iter().any(|(n, t)| n == k && matches!(t, T::Seq(v) if !v.is_empty()))).collect();
    if !with.is_empty() && r.below(3) > 0 {
        let list = with[r.below(with.len())];
        let Some((_, T::Seq(v))) = fields.iter_mut().find(|(n, _)| *n == list) else { unreachable!() };
        let i = r.below(v.len());
        let T::Struct(_, f) = &mut v[i] else { unreachable!() };
        let key = ["name", "value"][r.below(2)];
        let at = f.iter().position(|(k, _)| *k == key).unwrap();
        if form != Form::Compact && r.below(2) == 0 {
            f.remove(at);
            return format!("{list}[{i}] without {key}");
        }
        let bad = match (key, list) {
            ("name", _) => [V::Nil, V::Int(5), V::Bool(true), V::Arr(vec![]), V::Map(vec![])][r.below(5)].clone(),
            (_, "histograms") => [V::Nil, V::Int(5), V::Str("5".into()), V::Bool(false), V::Map(vec![]), V::Arr(vec![])][r.below(6)].clone(),
            (_, l) => {
                let range = if l == "counters" {
                    V::Int(-1 - r.below(1 << 20) as i128)
                } else {
                    V::Int(i64::MAX as i128 + 1 + r.below(1 << 20) as i128)
                };
                [V::Nil, V::Str("5".into()), V::F64(1.5), V::F64(5.0), V::Bool(true), V::Arr(vec![V::Int(1)]), range.clone(), range][r.below(8)].clone()
            }
        };
        f[at].1 = T::Extra(bad.clone());
        return format!("{list}[{i}] with {bad:?} for its {key}");
    }
    let key = ["systemtime", "counters", "gauges", "histograms"][r.below(4)];
    let at = fields.iter().position(|(k, _)| *k == key).unwrap();
    if form != Form::Compact && r.below(2) == 0 {
        fields.remove(at);
        return format!("no {key}");
    }
    let bad = [V::Nil, V::Int(5), V::Str("".into()), V::Bool(true), V::F64(0.5)][r.below(5)].clone();
    fields[at].1 = T::Extra(bad.clone());
    format!("{bad:?} for {key}")
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Form {
    Named,
    Compact,
    Json,
}

/// What lacks a required field or holds the wrong kind of value is refused.
fn refused(c: &(Foreign, Form, u64), obs: &mut Obs) -> CaseResult {
    let (c, form, pick) = c;
    let mut t = tree(&c.snap, c.style.omit_md && *form != Form::Compact);
    let what = spoil(&mut t, &mut Rng(*pick), *form);
    let got: Option<Norm> = match form {
        Form::Json => {
            let mut out = String::new();
            json_tree(&mut out, &t, &c.style, &mut Rng(c.style.seed));
            // still JSON
            serde_json::from_str::<serde_json::Value>(&out).map_err(|e| format!("harness: {e}"))?;
            serde_json::from_str::<mx::Snapshot>(&out).ok().map(|s| norm(&s))
        }
        _ => {
            let mut out = vec![];
            put_tree(&mut out, &t, *form == Form::Named, &c.style, &mut Rng(c.style.seed));
            rmp_serde::from_slice::<mx::Snapshot>(&out).ok().map(|s| norm(&s))
        }
    };
    ensure!(got.is_none(), "a snapshot with {what} was read ({form:?}): {got:?}");
    class(c, obs);
    obs.label(match form {
        Form::Named => "named",
        Form::Compact => "compact",
        Form::Json => "JSON",
    });
    obs.label_if(what.contains("without") || what.starts_with("no "), "field missing");
    Ok(())
}

fn own(c: &(S, bool), obs: &mut Obs) -> CaseResult {
    let (s, direct) = c;
    let real = s.real();
    let t = tree(s, false);
    let p = encode_msgpack(&real, *direct)?;
    let mut r = Reader(&p);
    let v = r.value().map_err(|e| format!("the library's MessagePack: {e}"))?;
    ensure!(r.0.is_empty(), "the library's MessagePack has {} bytes left over", r.0.len());
    follows(&v, &t, "snapshot in MessagePack")?;
    let j = encode_json(&real, *direct)?;
    let v: serde_json::Value = serde_json::from_slice(&j).map_err(|e| format!("the library's JSON: {e}"))?;
    ensure!(v.is_object(), "the library's JSON is not an object");
    follows(&from_json(&v), &t, "snapshot in JSON")?;
    obs.nontrivial(!s.counters.is_empty() || !s.gauges.is_empty() || !s.histograms.is_empty());
    obs.label_if(s.duration.is_some(), "V2");
    Ok(())
}

fn style(compact: bool) -> BoxedStrategy<Style> {
    (any::<u64>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(move |(seed, shuffle, extras, wide, omit_md)| {
            if compact {
                Style { seed, shuffle: false, extras: false, wide, omit_md: false }
            } else {
                Style { seed, shuffle, extras, wide, omit_md }
            }
        })
        .boxed()
}

fn snap_any_or_labelled() -> BoxedStrategy<S> {
    // labels that look like fields of the layout
    let tricky = prop::sample::select(vec!["secs", "nanos", "duration", "metadata", "counters", "systemtime", "name", "value", "config", "buckets"]);
    let map = proptest::collection::btree_map(tricky.prop_map(String::from), prop_oneof!["[0-9]{1,3}", gen::text()], 0..4);
    (snapshot_any(), map, any::<bool>())
        .prop_map(|(mut s, m, both)| {
            s.md.extend(m.clone());
            if both {
                if let Some(c) = s.counters.first_mut() {
                    c.md.extend(m);
                }
            }
            s
        })
        .boxed()
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule("snapshots written by an independent encoder as JSON, field-named and compact MessagePack: fields in any order, snapshot metadata left out, unknown fields of every shape on snapshots and readings, non-minimal integer and length forms, escapes and white space; what lacks a time, a list of readings or a reading's name or value, or holds the wrong kind of value there (refused); and the library's own output read by an independent decoder against the layout. Non-trivial when the snapshot holds at least one reading");
    ctx.assume("an unknown field is never named like a known one of the other version (a snapshot with a duration is a V2 snapshot); the encoding of a histogram inside its reading is the histogram crate's");
    let g = |compact: bool| move || (snap_any_or_labelled(), style(compact)).prop_map(|(snap, style)| Foreign { snap, style });
    ctx.check_par("named", ctx.cases(40_000, 10), g(false), named);
    ctx.check_par("compact", ctx.cases(40_000, 10), g(true), compact);
    ctx.check_par("json", ctx.cases(40_000, 10), g(false), json);
    ctx.check_par(
        "refused",
        ctx.cases(40_000, 10),
        || {
            (snap_any_or_labelled(), style(false), prop::sample::select(vec![Form::Named, Form::Compact, Form::Json]), any::<u64>()).prop_map(|(snap, mut style, form, pick)| {
                if form == Form::Compact {
                    style = Style { shuffle: false, extras: false, omit_md: false, ..style };
                }
                (Foreign { snap, style }, form, pick)
            })
        },
        refused,
    );
    ctx.check_par("own", ctx.cases(40_000, 10), || (snap_any_or_labelled(), any::<bool>()), own);
    ctx.check_par("own-large", ctx.cases(1500, 8), || (snapshot_big(), any::<bool>()), own);
}
