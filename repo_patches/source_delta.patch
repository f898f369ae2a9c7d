From 4121b2ee69ee45cb27c106e4d86be6838d48677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 01/12] fix: MetricsIter::size_hint counted the static metrics
 twice

The dynamic half of the hint was taken from the static iterator, so the hint
was wrong whenever the two halves had different lengths.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From e21a3ddf3d48cd9725d2697fa56a759ba2313b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 02/12] fix: MetricsIter::nth_back never reached the static
 metrics

Once the dynamic half was exhausted it was asked again instead of the static
half, so skipping past the dynamic metrics from the back returned None.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From 8eb940838f997740f29e48b7c9812deb33a597f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 03/12] fix: custom formatters of dynamic metrics were ignored

MetricBuilder::formatter stores the formatter in the provider map, which
provides it by reference, but MetricEntry::formatted only asked by value.
---
 metriken-core/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..19adeee 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -129,6 +129,11 @@ impl MetricEntry {
         let formatter = self
             .request_value::<crate::wrapper::FormattingFn>()
             .map(|func| func.0)
+            // Dynamic metrics provide their formatter by reference.
+            .or_else(|| {
+                self.request_ref::<crate::wrapper::FormattingFn>()
+                    .map(|func| func.0)
+            })
             .unwrap_or(crate::default_formatter);
 
         formatter(self, format)
-- 
2.43.0


From e462f8ac4d3e25483846c60508d8a19b018a3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 04/12] fix: MetricEntry::is did not recognise dynamic metrics

The entry points at the ProviderMetric while users only have the metric inside
it, and the compiler placed that at a different address.
---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..6de13f5 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -157,6 +157,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// This is `repr(C)` so that the metric has the same address as the whole
+/// struct, which is what [`MetricEntry::is`] compares.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From e6fdc9427c68991208770057a2027dec803c668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 05/12] fix: MetricEntry::is did not compare types

type_id on a &dyn Metric is the id of the trait object type itself, so metrics
of different types at the same address (a metric and its first field) matched.
---
 metriken-core/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index 19adeee..8a5ee0c 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -145,8 +145,12 @@ impl MetricEntry {
     /// false positives if `metric` is a ZST since multiple ZSTs may share
     /// the same address.
     pub fn is(&self, metric: &dyn Metric) -> bool {
-        if self.metric().type_id() != metric.type_id() {
-            return false;
+        // Note that `type_id` on a `dyn Metric` is always that of `dyn Metric` so we
+        // need to go through `as_any` to get to the concrete type.
+        if let (Some(a), Some(b)) = (self.metric().as_any(), metric.as_any()) {
+            if a.type_id() != b.type_id() {
+                return false;
+            }
         }
 
         let a = self.metric() as *const _ as *const ();
-- 
2.43.0


From b5f21f9f95af7d285a1529ec9ba38331cefd0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 06/12] fix: escape label values in the Prometheus format

Backslashes, quotes and newlines in a metadata value were written verbatim,
which produced malformed or misleading label lists.
---
 metriken-core/src/formatter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/formatter.rs b/metriken-core/src/formatter.rs
index c7b07e6..16cf49b 100644
--- a/metriken-core/src/formatter.rs
+++ b/metriken-core/src/formatter.rs
@@ -29,7 +29,7 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
             let metadata: Vec<String> = metric
                 .metadata()
                 .iter()
-                .map(|(key, value)| format!("{key}=\"{value}\""))
+                .map(|(key, value)| format!("{key}=\"{}\"", escape_label_value(value)))
                 .collect();
             let metadata = metadata.join(", ");
 
@@ -42,3 +42,11 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
         _ => metric.name().to_string(),
     }
 }
+
+/// Escape a label value as required by the Prometheus exposition format.
+fn escape_label_value(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+}
-- 
2.43.0


From 7c4b96285b562dd99f3ef76db7be59f2b659111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 07/12] fix: AtomicHistogram::increment panicked for
 2^max_value_power

The histogram crate treats that value as in range and then indexes one past its
last bucket. Report it as out of range like every larger value.
---
 metriken/src/histogram.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 24bfd9e..1549326 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -41,6 +41,13 @@ impl AtomicHistogram {
 
     /// Increments the bucket for a corresponding value.
     pub fn increment(&self, value: u64) -> Result<(), Error> {
+        // `::histogram` accepts 2^max_value_power as being in range and then
+        // indexes one past its last bucket.
+        let max_value_power = self.config.max_value_power();
+        if max_value_power < 64 && value >> max_value_power != 0 {
+            return Err(Error::OutOfRange);
+        }
+
         self.get_or_init().increment(value)
     }
 
-- 
2.43.0


From a3eba5a6f86090993784efbbe86cf3594700c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 08/12] fix: V2 snapshots in JSON were read back as V1

Untagged variants are tried in order and, in formats with named fields, a V2
snapshot also matches V1 with the duration as an ignored unknown field.
---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..b3d17f5 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // The order matters for deserialization: the first variant that matches is
+    // used and a V2 snapshot is a V1 snapshot with an additional field.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From e6486d97d161d1a58b610ccb9259a084e4b23509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 09/12] fix: return I/O errors from MsgpackToParquet instead of
 panicking

Errors while filling the buffer or rewinding were unwrapped, e.g. converting a
directory panicked.
---
 metriken-exposition/src/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..69b415d 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0


From a15a0df3594907bd0ecda9e0351d67cfb24bd131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 10/12] fix: convert the whole file whatever the position of
 its handle

The first pass started at the current position but the second one at the start
of the file, so metrics seen only before that position were silently dropped.
---
 metriken-exposition/src/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 69b415d..e1277c2 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -60,7 +60,9 @@ impl MsgpackToParquet {
         let mut reader = BufReader::new(reader);
         let mut schema = ParquetSchema::new();
 
-        // First pass to build the schema
+        // First pass to build the schema. The second pass is over the whole file so
+        // this one needs to be as well.
+        reader.rewind()?;
         while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
-- 
2.43.0


From d0662ffa738b3163cec1decd052c34cad000428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:46 +0000
Subject: [PATCH 11/12] fix: raw identifiers in metric declarations kept their
 r# prefix

r#type and "type" (or r#a and a) are the same metadata key but were
registered as different ones, so that duplicates were not detected.
---
 metriken-derive/src/args.rs   | 5 +++--
 metriken-derive/src/metric.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/metriken-derive/src/args.rs b/metriken-derive/src/args.rs
index 1489022..9a2d86e 100644
--- a/metriken-derive/src/args.rs
+++ b/metriken-derive/src/args.rs
@@ -6,6 +6,7 @@ use std::fmt::{Display, Formatter, Result};
 
 use proc_macro2::TokenStream;
 use quote::ToTokens;
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
 use syn::{Ident, Token};
@@ -89,14 +90,14 @@ pub(crate) enum MetadataName {
 impl MetadataName {
     pub fn value(&self) -> String {
         match self {
-            Self::Ident(ident) => ident.to_string(),
+            Self::Ident(ident) => ident.unraw().to_string(),
             Self::String(string) => string.value(),
         }
     }
 
     pub fn to_literal(&self) -> syn::LitStr {
         match self {
-            Self::Ident(ident) => syn::LitStr::new(&ident.to_string(), ident.span()),
+            Self::Ident(ident) => syn::LitStr::new(&self.value(), ident.span()),
             Self::String(string) => string.clone(),
         }
     }
diff --git a/metriken-derive/src/metric.rs b/metriken-derive/src/metric.rs
index 7320c2c..37acb50 100644
--- a/metriken-derive/src/metric.rs
+++ b/metriken-derive/src/metric.rs
@@ -8,6 +8,7 @@ use std::collections::BTreeMap;
 use proc_macro2::{Span, TokenStream};
 use proc_macro_crate::FoundCrate;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream};
 use syn::spanned::Spanned;
 use syn::{parse_quote, Expr, Ident, ItemStatic, Path, Token};
@@ -135,7 +136,7 @@ pub(crate) fn metric(
     }
 
     let name: syn::Expr = args.name.map(|name| name.value).unwrap_or_else(|| {
-        let name = syn::LitStr::new(&static_name.to_string(), static_name.span());
+        let name = syn::LitStr::new(&static_name.unraw().to_string(), static_name.span());
         parse_quote!(#name)
     });
 
-- 
2.43.0


From 370bc80b50e95ccd3916296efe237c8ebcc65a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 12/12] fix: DynPinnedMetric must not be Unpin

The registry keeps a pointer to the metric from register() until the
DynPinnedMetric is dropped and relies on Pin to keep it in place, but the
struct was Unpin for every Unpin metric. Safe code could thus register
through Pin::new(&metric) and move or free the metric while it is listed.
---
 metriken-core/src/dynmetrics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 6de13f5..7af730f 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -10,6 +10,7 @@
 
 use std::borrow::Cow;
 use std::collections::{BTreeMap, HashMap};
+use std::marker::PhantomPinned;
 use std::ops::Deref;
 use std::pin::Pin;
 
@@ -223,6 +224,10 @@ impl<M: Metric> Metric for ProviderMetric<M> {
 /// [`register`]: crate::dynmetrics::DynPinnedMetric::register
 pub struct DynPinnedMetric<M: Metric> {
     metric: ProviderMetric<M>,
+
+    // The registry points at `metric`, so we must not be `Unpin`: otherwise safe
+    // code could move (or free) this struct after it has been registered.
+    _pinned: PhantomPinned,
 }
 
 impl<M: Metric> DynPinnedMetric<M> {
@@ -239,6 +244,7 @@ impl<M: Metric> DynPinnedMetric<M> {
     fn new_v2(metric: M, provider: ProviderMap) -> Self {
         Self {
             metric: ProviderMetric { metric, provider },
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0

