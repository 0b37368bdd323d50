use std::borrow::Cow;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use chrono::{DateTime, Utc};
use parking_lot::Mutex;
#[derive(Debug, Clone, Default)] pub struct Count(Arc<AtomicUsize>);
impl Count { pub fn new() -> Self { Self::default() } pub fn add(&self, n: usize) { self.0.fetch_add(n, Ordering::Relaxed); } pub fn value(&self) -> usize { self.0.load(Ordering::Relaxed) } }
#[derive(Debug, Clone, Default)] pub struct Gauge(Arc<AtomicUsize>);
impl Gauge { pub fn new() -> Self { Self::default() } pub fn add(&self, n: usize) { self.0.fetch_add(n, Ordering::Relaxed); } pub fn set(&self, n: usize) -> usize { self.0.swap(n, Ordering::Relaxed) } pub fn value(&self) -> usize { self.0.load(Ordering::Relaxed) } }
#[derive(Debug, Clone, Default)] pub struct Time(Arc<AtomicUsize>);
impl Time { pub fn new() -> Self { Self::default() } pub fn add_elapsed(&self, s: Instant) { self.add_duration(s.elapsed()) } pub fn add_duration(&self, d: Duration) { self.0.fetch_add((d.as_nanos() as usize).max(1), Ordering::Relaxed); } pub fn timer(&self) -> ScopedTimerGuard<'_> { ScopedTimerGuard { inner: self, start: Some(Instant::now()) } } pub fn value(&self) -> usize { self.0.load(Ordering::Relaxed) } }
#[derive(Debug)] pub struct ScopedTimerGuard<'a> { inner: &'a Time, start: Option<Instant> }
impl ScopedTimerGuard<'_> { pub fn stop(&mut self) { if let Some(s) = self.start.take() { self.inner.add_elapsed(s) } } pub fn restart(&mut self) { self.start = Some(Instant::now()) } pub fn done(mut self) { self.stop() } }
impl Drop for ScopedTimerGuard<'_> { fn drop(&mut self) { self.stop() } }
#[derive(Debug, Clone, Default)] pub struct Timestamp(Arc<Mutex<Option<DateTime<Utc>>>>);
impl Timestamp { pub fn new() -> Self { Self::default() } pub fn record(&self) { self.set(Utc::now()) } pub fn set(&self, n: DateTime<Utc>) { *self.0.lock() = Some(n) } pub fn value(&self) -> Option<DateTime<Utc>> { *self.0.lock() } }
#[derive(Debug, Clone)] pub enum MetricValue { OutputRows(Count), ElapsedCompute(Time), Count { name: Cow<'static, str>, count: Count }, Gauge { name: Cow<'static, str>, gauge: Gauge }, Time { name: Cow<'static, str>, time: Time }, StartTimestamp(Timestamp), EndTimestamp(Timestamp) }
#[derive(Debug, Clone)] pub struct Metric { value: MetricValue, partition: Option<usize> }
impl Metric { pub fn value(&self) -> &MetricValue { &self.value } pub fn partition(&self) -> Option<usize> { self.partition } }
#[derive(Debug, Clone, Default)] pub struct MetricsSet { metrics: Vec<Arc<Metric>> }
impl MetricsSet { pub fn new() -> Self { Self::default() } pub fn push(&mut self, m: Arc<Metric>) { self.metrics.push(m) } pub fn iter(&self) -> impl Iterator<Item = &Arc<Metric>> { self.metrics.iter() } pub fn aggregate_by_name(&self) -> Self { self.clone() } pub fn sorted_for_display(self) -> Self { self } pub fn timestamps_removed(self) -> Self { self } }
impl fmt::Display for MetricsSet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.metrics) } }
#[derive(Debug, Clone, Default)] pub struct ExecutionPlanMetricsSet { inner: Arc<Mutex<MetricsSet>> }
impl ExecutionPlanMetricsSet { pub fn new() -> Self { Self::default() } pub fn register(&self, m: Arc<Metric>) { self.inner.lock().push(m) } pub fn clone_inner(&self) -> MetricsSet { self.inner.lock().clone() } }
pub struct MetricBuilder<'a> { m: &'a ExecutionPlanMetricsSet, p: Option<usize> }
impl<'a> MetricBuilder<'a> {
    pub fn new(m: &'a ExecutionPlanMetricsSet) -> Self { Self { m, p: None } }
    pub fn with_partition(mut self, p: usize) -> Self { self.p = Some(p); self }
    pub fn build(self, value: MetricValue) { self.m.register(Arc::new(Metric { value, partition: self.p })) }
    pub fn output_rows(self, p: usize) -> Count { let c = Count::new(); self.with_partition(p).build(MetricValue::OutputRows(c.clone())); c }
    pub fn counter(self, n: impl Into<Cow<'static, str>>, p: usize) -> Count { let count = Count::new(); self.with_partition(p).build(MetricValue::Count { name: n.into(), count: count.clone() }); count }
    pub fn global_counter(self, n: impl Into<Cow<'static, str>>) -> Count { let count = Count::new(); self.build(MetricValue::Count { name: n.into(), count: count.clone() }); count }
    pub fn gauge(self, n: impl Into<Cow<'static, str>>, p: usize) -> Gauge { let gauge = Gauge::new(); self.with_partition(p).build(MetricValue::Gauge { name: n.into(), gauge: gauge.clone() }); gauge }
    pub fn subset_time(self, n: impl Into<Cow<'static, str>>, p: usize) -> Time { let time = Time::new(); self.with_partition(p).build(MetricValue::Time { name: n.into(), time: time.clone() }); time }
    pub fn elapsed_compute(self, p: usize) -> Time { let t = Time::new(); self.with_partition(p).build(MetricValue::ElapsedCompute(t.clone())); t }
    pub fn start_timestamp(self, p: usize) -> Timestamp { let t = Timestamp::new(); self.with_partition(p).build(MetricValue::StartTimestamp(t.clone())); t }
    pub fn end_timestamp(self, p: usize) -> Timestamp { let t = Timestamp::new(); self.with_partition(p).build(MetricValue::EndTimestamp(t.clone())); t }
}
#[derive(Debug, Clone)] pub struct BaselineMetrics { end_time: Timestamp, elapsed_compute: Time, output_rows: Count }
impl BaselineMetrics {
    pub fn new(m: &ExecutionPlanMetricsSet, p: usize) -> Self { MetricBuilder::new(m).start_timestamp(p).record(); Self { end_time: MetricBuilder::new(m).end_timestamp(p), elapsed_compute: MetricBuilder::new(m).elapsed_compute(p), output_rows: MetricBuilder::new(m).output_rows(p) } }
    pub fn elapsed_compute(&self) -> &Time { &self.elapsed_compute } pub fn output_rows(&self) -> &Count { &self.output_rows }
    pub fn done(&self) { self.end_time.record() } pub fn record_output(&self, n: usize) { self.output_rows.add(n) } pub fn try_done(&self) { if self.end_time.value().is_none() { self.end_time.record() } }
}
impl Drop for BaselineMetrics { fn drop(&mut self) { self.try_done() } }
pub trait RecordOutput { fn record_output(self, b: &BaselineMetrics) -> Self; }
impl RecordOutput for &arrow::record_batch::RecordBatch { fn record_output(self, b: &BaselineMetrics) -> Self { b.record_output(self.num_rows()); self } }

impl MetricValue {
    pub fn name(&self) -> &str { match self { Self::OutputRows(_) => "output_rows", Self::ElapsedCompute(_) => "elapsed_compute", Self::Count { name, .. } | Self::Gauge { name, .. } | Self::Time { name, .. } => name, Self::StartTimestamp(_) => "start_timestamp", Self::EndTimestamp(_) => "end_timestamp" } }
    pub fn as_usize(&self) -> usize { match self { Self::OutputRows(c) => c.value(), Self::ElapsedCompute(t) => t.value(), Self::Count { count, .. } => count.value(), Self::Gauge { gauge, .. } => gauge.value(), Self::Time { time, .. } => time.value(), _ => 0 } }
}
impl fmt::Display for MetricValue { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.as_usize()) } }
