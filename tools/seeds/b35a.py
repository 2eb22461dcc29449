ID="B35a"; PROPERTY="C35"
NEEDS="a timer that is dropped, without being stopped, after at least one full second"
BREAKS="a dropped timer records its duration when it ran for a second or longer"
EDITS=[("crates/metrics/src/timer.rs","""        if !self.observed {
            self.observe(false);
""","""        if !self.observed {
            self.observe(self.start.elapsed().as_secs() > 0);
""")]
DEMO='''use prometheus_exporter::prometheus::{Histogram, HistogramOpts};
use trin_metrics::timer::DiscardOnDropHistogramTimer;
fn main() {
    let h = Histogram::with_opts(HistogramOpts::new("x", "y")).unwrap();
    let t = DiscardOnDropHistogramTimer::new(h.clone());
    std::thread::sleep(std::time::Duration::from_millis(1100));
    drop(t);
    assert_eq!(h.get_sample_count(), 0);
}
'''
