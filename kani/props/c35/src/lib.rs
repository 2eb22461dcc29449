//! C35: duration timer.
extern crate vstd as std;
#[path = "/repo/crates/metrics/src/timer.rs"]
pub mod timer;

use prometheus_exporter::prometheus::Histogram;
use std::time::Duration;
use timer::DiscardOnDropHistogramTimer as Timer;
use vstd::clock;

fn moment() -> Duration {
    let s = nd::u64();
    let n = nd::u32();
    nd::assume(s < 1 << 40 && n < 1_000_000_000);
    Duration::new(s, n)
}
/// Ends the timer in one of its ways; returns the duration it reports, if it does.
fn end(t: Timer, way: u8) -> Option<f64> {
    match way {
        0 => {
            t.observe_duration();
            None
        }
        1 => Some(t.stop_and_record()),
        2 => Some(t.stop_and_discard()),
        _ => {
            drop(t);
            None
        }
    }
}
fn check(start: Duration, stop: Duration, way: u8) -> f64 {
    let h = Histogram::fresh();
    clock::set(start);
    let t = Timer::new(h.clone());
    assert!(h.get_sample_count() == 0, "nothing is recorded at the start");
    clock::set(stop);
    let d = end(t, way);
    let want = if way < 2 { 1 } else { 0 };
    assert!(h.get_sample_count() == want, "recorded exactly when asked for");
    if way == 1 {
        assert!(h.seen(0) == d.unwrap(), "the recorded duration is the one returned");
    }
    let v = if way == 0 { h.seen(0) } else { d.unwrap_or(0.0) };
    assert!(v >= 0.0, "never negative");
    v
}
/// Durations with the given fraction of a second, compared with the time that passed.
fn exact(nanos: u32, secs: u64, from: u32, way: u8) {
    let start = Duration::new(7, from);
    let v = check(start, start + Duration::new(secs, nanos), way);
    let want = secs as f64 + nanos as f64 / 1e9;
    let off = if v > want { v - want } else { want - v };
    assert!(off <= 1e-9 || (secs > 1000 && off <= 1e-6), "the elapsed time in seconds");
}
fn any_way() -> u8 {
    nd::below(4)
}
macro_rules! samples {
    ($way:literal) => {{
        let fractions = [0u32, 1, 999, 1_000, 999_999, 1_000_000, 250_000_000, 500_000_000, 999_999_999, 123_456_789];
        let seconds = [0u64, 1, 2, 59, 61, 3_600, 86_401, 4_294_967_295, 4_294_967_297];
        let mut i = 0;
        while i < fractions.len() {
            let mut j = 0;
            while j < seconds.len() {
                exact(fractions[i], seconds[j], 0, $way);
                exact(fractions[i], seconds[j], 600_000_000, $way);
                j += 1;
            }
            i += 1;
        }
        nd::reach!(true, "reached");
    }};
}

nd::harnesses! {
    [6] fn clock_goes_on() {
        let (a, b) = (moment(), moment());
        nd::assume(a <= b);
        let way = any_way();
        check(a, b, way);
        nd::reach!(way == 3, "dropped");
        nd::reach!(way == 1, "recorded");
    }
    [6] fn clock_goes_back() {
        let (a, b) = (moment(), moment());
        nd::assume(a >= b);
        let way = any_way();
        let v = check(a, b, way);
        assert!(v == 0.0, "no time has passed");
        nd::reach!(way == 1, "recorded");
    }
    [6] fn whole_seconds() {
        let s = nd::u32() as u64;
        let way = nd::below(3);
        let v = check(Duration::new(3, 0), Duration::new(3 + s, 0), way);
        assert!(v == s as f64, "the elapsed seconds");
        nd::reach!(s > 100, "long");
    }
    [6] fn between_seconds() {
        let (s, n) = (nd::u32() as u64, nd::u32());
        nd::assume(n < 1_000_000_000);
        let way = nd::below(3);
        let v = check(Duration::new(3, 0), Duration::new(3 + s, n), way);
        assert!(v >= s as f64 && v <= (s + 1) as f64, "between the full seconds around it");
        nd::reach!(n > 100, "fraction");
    }
    [6] fn fractions() {
        let k = nd::below(64);
        let n = k as u32 * 15_625_000;
        let way = nd::below(3);
        let v = check(Duration::new(3, 0), Duration::new(3, n), way);
        assert!(v == k as f64 / 64.0, "the fraction of a second");
        nd::reach!(n > 100, "fraction");
    }
    [12] fn samples_observe() { samples!(0) }
    [12] fn samples_record() { samples!(1) }
    [12] fn samples_discard() { samples!(2) }
    [6] fn two_timers() {
        let h = Histogram::fresh();
        clock::set(moment());
        let t = Timer::new(h.clone());
        let u = Timer::new(h.clone());
        let (w, x) = (any_way(), any_way());
        let a = end(t, w);
        let c = h.get_sample_count();
        assert!(c == (w < 2) as u64, "the first timer");
        let b = end(u, x);
        assert!(h.get_sample_count() == c + (x < 2) as u64, "the second timer");
        let _ = (a, b);
        nd::reach!(c == 1, "recorded");
    }
}
