//! Histogram that keeps the observations for the harness to look at.
pub mod prometheus {
    pub const MAX: usize = 4;
    /// Marked: Kani lets a static share storage with constants of the same content.
    struct State {
        _mark: u64,
        count: usize,
        seen: [f64; MAX],
    }
    static mut STATE: State = State { _mark: 0x5afe_4157_0000_0001, count: 0, seen: [0.0; MAX] };

    #[derive(Clone, Debug)]
    pub struct Histogram(());

    impl Histogram {
        pub fn fresh() -> Self {
            unsafe { STATE.count = 0 };
            Histogram(())
        }
        pub fn observe(&self, v: f64) {
            unsafe {
                if STATE.count < MAX {
                    STATE.seen[STATE.count] = v;
                }
                STATE.count += 1;
            }
        }
        pub fn get_sample_count(&self) -> u64 {
            unsafe { STATE.count as u64 }
        }
        pub fn get_sample_sum(&self) -> f64 {
            let mut s = 0.0;
            let mut i = 0;
            while i < MAX {
                if i < unsafe { STATE.count } {
                    s += unsafe { STATE.seen[i] };
                }
                i += 1;
            }
            s
        }
        pub fn seen(&self, i: usize) -> f64 {
            unsafe { STATE.seen[i] }
        }
        pub fn start_timer(&self) -> HistogramTimer {
            HistogramTimer { h: self.clone(), done: false, start: vstd::time::Instant::now() }
        }
        pub fn observe_closure_duration<F: FnOnce() -> T, T>(&self, f: F) -> T {
            let t = self.start_timer();
            let r = f();
            t.observe_duration();
            r
        }
    }

    #[derive(Debug)]
    pub struct HistogramTimer {
        h: Histogram,
        done: bool,
        start: vstd::time::Instant,
    }
    impl HistogramTimer {
        fn stop(&mut self, record: bool) -> f64 {
            let v = vstd::time::Instant::now().saturating_duration_since(self.start).as_secs_f64();
            self.done = true;
            if record {
                self.h.observe(v);
            }
            v
        }
        pub fn observe_duration(self) {
            self.stop_and_record();
        }
        pub fn stop_and_record(mut self) -> f64 {
            self.stop(true)
        }
        pub fn stop_and_discard(mut self) -> f64 {
            self.stop(false)
        }
    }
    impl Drop for HistogramTimer {
        fn drop(&mut self) {
            if !self.done {
                self.stop(true);
            }
        }
    }
}
