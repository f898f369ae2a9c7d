//! Parquet files as plain tables: the expected one, and the one in a file.
use std::collections::{BTreeMap, BTreeSet};

use arrow::array::{Array, Int64Array, ListArray, UInt64Array};
use arrow::datatypes::DataType;
use metriken_exposition as mx;
use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
use parquet::basic::Compression;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq};

use crate::model::{canonical, Labels, Recording};

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Null,
    U(u64),
    I(i64),
    L(Vec<u64>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Column {
    pub name: String,
    pub kind: &'static str,
    pub annotations: Labels,
    pub cells: Vec<Cell>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub columns: Vec<Column>,
    pub metadata: Labels,
    pub row_groups: Vec<usize>,
    /// of the column chunks of a file
    pub codecs: BTreeSet<&'static str>,
}

impl Table {
    pub fn rows(&self) -> usize {
        self.row_groups.iter().sum()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    /// None: the default; Some(0): none; Some(n): zstd level n
    pub compression: Option<i32>,
    pub batch: Option<usize>,
    pub sparse: Option<bool>,
}

impl Opts {
    pub fn plain() -> Opts {
        Opts { compression: None, batch: None, sparse: None }
    }
    pub fn is_sparse(&self) -> bool {
        self.sparse == Some(true)
    }
    /// The codec that was asked for.
    pub fn codec(&self) -> Option<&'static str> {
        self.compression.map(|c| if c == 0 { "none" } else { "zstd" })
    }
    pub fn real(&self) -> mx::ParquetOptions {
        let mut o = mx::ParquetOptions::new();
        if let Some(c) = self.compression {
            o = o.compression(if c == 0 { mx::ParquetCompression::none() } else { mx::ParquetCompression::zstd(c).expect("valid level") });
        }
        if let Some(b) = self.batch {
            o = o.max_batch_size(b);
        }
        if let Some(s) = self.sparse {
            o = o.histogram_type(if s { mx::ParquetHistogramType::Sparse } else { mx::ParquetHistogramType::Standard });
        }
        o
    }
}

fn ann(md: &Labels, ty: &str) -> Labels {
    let mut m = md.clone();
    m.insert("metric_type".into(), ty.into());
    m
}

/// The table the documentation promises for a recording.
pub fn expected(rec: &Recording, sparse: bool, caller: &Labels) -> Table {
    let snaps = &rec.0;
    let time_ann = |t: &str| -> Labels { [("metric_type".to_string(), t.to_string()), ("unit".to_string(), "nanoseconds".to_string())].into() };
    let mut columns = vec![
        Column { name: "timestamp".into(), kind: "u64", annotations: time_ann("timestamp"), cells: snaps.iter().map(|s| Cell::U(s.time_ns())).collect() },
        Column {
            name: "duration".into(),
            kind: "u64",
            annotations: time_ann("duration"),
            cells: snaps.iter().map(|s| s.duration_ns().map_or(Cell::Null, Cell::U)).collect(),
        },
    ];
    // column name -> (metadata of the first reading, cells)
    let mut c: BTreeMap<String, (Labels, Vec<Cell>)> = BTreeMap::new();
    let mut g = c.clone();
    let mut h: BTreeMap<String, (Labels, Vec<Option<Vec<u64>>>)> = BTreeMap::new();
    let n = snaps.len();
    for (row, s) in snaps.iter().enumerate() {
        for r in &s.counters {
            c.entry(canonical(&r.name, &r.md)).or_insert_with(|| (r.md.clone(), vec![Cell::Null; n])).1[row] = Cell::U(r.value);
        }
        for r in &s.gauges {
            g.entry(canonical(&r.name, &r.md)).or_insert_with(|| (r.md.clone(), vec![Cell::Null; n])).1[row] = Cell::I(r.value);
        }
        for r in &s.histograms {
            h.entry(canonical(&r.name, &r.md)).or_insert_with(|| (r.md.clone(), vec![None; n])).1[row] = Some(r.value.buckets());
        }
    }
    for (name, (md, cells)) in c {
        columns.push(Column { name, kind: "u64", annotations: ann(&md, "counter"), cells });
    }
    for (name, (md, cells)) in g {
        columns.push(Column { name, kind: "i64", annotations: ann(&md, "gauge"), cells });
    }
    for (name, (md, cells)) in h {
        if sparse {
            let part = |f: &dyn Fn(usize, u64) -> u64| -> Vec<Cell> {
                cells
                    .iter()
                    .map(|b| match b {
                        None => Cell::Null,
                        Some(b) => Cell::L(b.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| f(i, *c)).collect()),
                    })
                    .collect()
            };
            let annotations = ann(&md, "sparse_histogram");
            columns.push(Column { name: format!("{name}:bucket_indices"), kind: "list", annotations: annotations.clone(), cells: part(&|i, _| i as u64) });
            columns.push(Column { name: format!("{name}:bucket_counts"), kind: "list", annotations, cells: part(&|_, c| c) });
        } else {
            columns.push(Column {
                name: format!("{name}:buckets"),
                kind: "list",
                annotations: ann(&md, "histogram"),
                cells: cells.into_iter().map(|b| b.map_or(Cell::Null, Cell::L)).collect(),
            });
        }
    }
    let mut metadata = snaps.iter().find(|s| !s.md.is_empty()).map(|s| s.md.clone()).unwrap_or_default();
    metadata.extend(caller.clone());
    Table { columns, metadata, row_groups: vec![n], codecs: BTreeSet::new() }
}

/// Push a recording through schema and writer.
pub fn write(rec: &Recording, opts: &Opts, caller: Option<&Labels>) -> Result<Vec<u8>, String> {
    let mut schema = mx::ParquetSchema::new();
    for s in &rec.0 {
        schema.push(s.real());
    }
    let mut out = vec![];
    let md = caller.map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    let mut w = schema.finalize(&mut out, opts.real(), md).map_err(|e| format!("finalizing the schema failed: {e}"))?;
    for s in &rec.0 {
        w.push(s.real()).map_err(|e| format!("pushing a snapshot failed: {e}"))?;
    }
    let meta = w.finalize().map_err(|e| format!("finalizing the file failed: {e}"))?;
    ensure_eq!(meta.num_rows, rec.0.len() as i64, "rows reported by finalize");
    Ok(out)
}

/// Read a file back with the arrow reader.
pub fn read(bytes: Vec<u8>) -> Result<Table, String> {
    let b = ParquetRecordBatchReaderBuilder::try_new(bytes::Bytes::from(bytes)).map_err(|e| format!("the file does not open: {e}"))?;
    let meta = b.metadata().clone();
    let schema = b.schema().clone();
    let row_groups: Vec<usize> = meta.row_groups().iter().map(|g| g.num_rows() as usize).collect();
    let codecs = meta
        .row_groups()
        .iter()
        .flat_map(|g| g.columns())
        .map(|c| match c.compression() {
            Compression::UNCOMPRESSED => "none",
            Compression::ZSTD(_) => "zstd",
            _ => "another",
        })
        .collect();
    let total = meta.file_metadata().num_rows();
    ensure_eq!(row_groups.iter().sum::<usize>() as i64, total, "rows in the row groups against rows in the file");
    let mut metadata = Labels::new();
    for kv in meta.file_metadata().key_value_metadata().into_iter().flatten() {
        if kv.key == "ARROW:schema" {
            continue;
        }
        let v = kv.value.clone().ok_or_else(|| format!("file metadata {:?} has no value", kv.key))?;
        ensure!(metadata.insert(kv.key.clone(), v).is_none(), "file metadata {:?} appears twice", kv.key);
    }
    let mut columns: Vec<Column> = vec![];
    for f in schema.fields() {
        let kind = match f.data_type() {
            DataType::UInt64 => "u64",
            DataType::Int64 => "i64",
            DataType::List(i) if i.data_type() == &DataType::UInt64 => "list",
            t => return Err(format!("column {:?} has type {t:?}", f.name())),
        };
        columns.push(Column { name: f.name().clone(), kind, annotations: f.metadata().iter().map(|(k, v)| (k.clone(), v.clone())).collect(), cells: vec![] });
    }
    for batch in b.build().map_err(|e| format!("the file cannot be read: {e}"))? {
        let batch = batch.map_err(|e| format!("a batch cannot be read: {e}"))?;
        ensure_eq!(batch.num_columns(), columns.len(), "columns in a batch");
        for (i, col) in columns.iter_mut().enumerate() {
            let a = batch.column(i);
            for r in 0..batch.num_rows() {
                let cell = if a.is_null(r) {
                    Cell::Null
                } else {
                    let any = a.as_any();
                    match col.kind {
                        "u64" => Cell::U(any.downcast_ref::<UInt64Array>().ok_or("array type")?.value(r)),
                        "i64" => Cell::I(any.downcast_ref::<Int64Array>().ok_or("array type")?.value(r)),
                        _ => {
                            let l = any.downcast_ref::<ListArray>().ok_or("array type")?.value(r);
                            let l = l.as_any().downcast_ref::<UInt64Array>().ok_or("array type")?;
                            ensure!(l.null_count() == 0, "a histogram of column {:?} contains nulls", col.name);
                            Cell::L(l.values().to_vec())
                        }
                    }
                };
                col.cells.push(cell);
            }
        }
    }
    for c in &columns {
        ensure_eq!(c.cells.len() as i64, total, "cells of column {:?}", c.name);
    }
    Ok(Table { columns, metadata, row_groups, codecs })
}

/// Rows, columns and cells.
pub fn same_data(got: &Table, want: &Table) -> Result<(), String> {
    let names = |t: &Table| t.columns.iter().map(|c| (c.name.clone(), c.kind)).collect::<Vec<_>>();
    ensure_eq!(names(got), names(want), "columns");
    ensure_eq!(got.rows(), want.rows(), "rows");
    for (g, w) in got.columns.iter().zip(&want.columns) {
        for (r, (a, b)) in g.cells.iter().zip(&w.cells).enumerate() {
            ensure_eq!(a, b, "row {r} of column {:?} ({})", g.name, g.kind);
        }
        ensure_eq!(g.cells.len(), w.cells.len(), "cells of column {:?}", g.name);
    }
    Ok(())
}

pub fn same_annotations(got: &Table, want: &Table) -> Result<(), String> {
    for (g, w) in got.columns.iter().zip(&want.columns) {
        ensure_eq!(g.annotations, w.annotations, "annotations of column {:?}", g.name);
    }
    ensure_eq!(got.metadata, want.metadata, "file metadata");
    Ok(())
}
