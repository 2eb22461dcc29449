ID="B35b"; PROPERTY="C35"
NEEDS="durations of more than a second with a large fraction"
BREAKS="the fraction of a second is counted in full microseconds of the whole duration, so durations over a second come out too long"
EDITS=[("crates/metrics/src/timer.rs","let nanos = f64::from(duration_eclipsed_since_start.subsec_nanos()) / 1e9;","let nanos = (duration_eclipsed_since_start.as_nanos() % 2_000_000_000) as f64 / 1e9;")]
DEMO='''use prometheus_exporter::prometheus::{Histogram, HistogramOpts};
use trin_metrics::timer::DiscardOnDropHistogramTimer;
fn main() {
    let h = Histogram::with_opts(HistogramOpts::new("x", "y")).unwrap();
    let s = std::time::Instant::now();
    let t = DiscardOnDropHistogramTimer::new(h.clone());
    std::thread::sleep(std::time::Duration::from_millis(1200));
    let d = t.stop_and_record();
    assert!(d <= s.elapsed().as_secs_f64() + 0.01);
}
'''
