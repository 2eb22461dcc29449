//! Source of symbolic choices.
//!
//! Under the model checker (`cfg(kani)`) every function returns an unconstrained value that the
//! solver picks. In a native build the same calls, in the same order, return the values of a
//! counterexample that is being replayed against the real code.
#![allow(clippy::all)]
#![cfg_attr(kani, feature(pattern, allocator_api))]

#[cfg(kani)]
mod imp {
    pub fn raw8() -> u8 {
        kani::any()
    }
    pub fn raw16() -> u16 {
        kani::any()
    }
    pub fn raw32() -> u32 {
        kani::any()
    }
    pub fn raw64() -> u64 {
        kani::any()
    }
    pub fn raw128() -> u128 {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        static Q: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }

    /// Exit code of a native run that left the assumptions of the harness.
    pub const EXIT_ASSUME: i32 = 77;

    thread_local! {
        static RANDOM: std::cell::Cell<u64> = std::cell::Cell::new(0);
        static SEARCH: std::cell::Cell<bool> = std::cell::Cell::new(false);
        static LOG: RefCell<Vec<Vec<u8>>> = RefCell::new(Vec::new());
        static HITS: RefCell<std::collections::BTreeMap<&'static str, u64>> = RefCell::new(Default::default());
    }
    /// Draw from a generator instead of a recorded counterexample.
    pub fn randomize(seed: u64) {
        RANDOM.with(|r| r.set(seed | 1));
    }
    pub fn must_hit(c: bool, m: &'static str) {
        HITS.with(|h| *h.borrow_mut().entry(m).or_insert(0) += c as u64);
    }
    pub fn never_hit() -> Vec<&'static str> {
        HITS.with(|h| h.borrow().iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect())
    }

    pub fn load(vals: Vec<Vec<u8>>) {
        Q.with(|q| *q.borrow_mut() = vals.into());
    }

    fn log(n: usize, v: u128) -> u128 {
        LOG.with(|l| l.borrow_mut().push(v.to_le_bytes()[..n].to_vec()));
        v
    }
    /// Values that code tends to treat specially, half of the time.
    fn interesting(n: usize, v: u128, x: u64) -> u128 {
        let max = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
        let bits = (8 * n) as u64;
        match (x >> 33) % 16 {
            0 => (x >> 40) as u128 % 4,
            1 => (x >> 40) as u128 % 40,
            2 => max - (x >> 40) as u128 % 3,
            3 => 1u128 << ((x >> 40) % bits),
            4 => (1u128 << ((x >> 40) % bits)) - 1,
            5 | 6 if n == 1 => b"0123456789-:+rxa_. "[(x >> 40) as usize % 19] as u128,
            5 => v >> ((x >> 40) % bits),
            _ => v,
        }
    }
    /// Starts a run of the concrete search: choices are recorded.
    pub fn search() {
        SEARCH.with(|r| r.set(true));
        LOG.with(|l| l.borrow_mut().clear());
    }
    pub fn taken() -> Vec<Vec<u8>> {
        LOG.with(|l| l.borrow().clone())
    }
    /// A value in `lo..=hi`; the concrete search picks one without rejecting.
    pub fn within(n: usize, lo: u128, hi: u128) -> u128 {
        let v = pop(n);
        if SEARCH.with(|r| r.get()) && !(lo <= v && v <= hi) {
            let w = lo + v % (hi - lo + 1);
            LOG.with(|l| l.borrow_mut().pop());
            return log(n, w);
        }
        v
    }

    fn pop(n: usize) -> u128 {
        let s = RANDOM.with(|r| r.get());
        if s != 0 {
            let mut out = 0u128;
            let mut x = s;
            for _ in 0..2 {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                out = out << 64 | x.wrapping_mul(0x2545F4914F6CDD1D) as u128;
            }
            RANDOM.with(|r| r.set(x));
            let v = if n == 16 { out } else { (out >> 24) & ((1u128 << (8 * n)) - 1) };
            return if SEARCH.with(|r| r.get()) { log(n, interesting(n, v, x)) } else { v };
        }
        let v = Q.with(|q| q.borrow_mut().pop_front());
        match v {
            None => 0,
            Some(b) => {
                let mut r = 0u128;
                for (i, x) in b.iter().take(n).enumerate() {
                    r |= (*x as u128) << (8 * i);
                }
                r
            }
        }
    }
    pub fn raw8() -> u8 {
        pop(1) as u8
    }
    pub fn raw16() -> u16 {
        pop(2) as u16
    }
    pub fn raw32() -> u32 {
        pop(4) as u32
    }
    pub fn raw64() -> u64 {
        pop(8) as u64
    }
    pub fn raw128() -> u128 {
        pop(16)
    }
    pub fn assume(c: bool) {
        if !c {
            if RANDOM.with(|r| r.get()) != 0 {
                std::panic::panic_any("assumption");
            }
            eprintln!("replay: values leave the assumptions of the harness");
            std::process::exit(EXIT_ASSUME);
        }
    }
}

#[cfg(not(kani))]
pub use imp::{load, must_hit, never_hit, randomize, search, taken, EXIT_ASSUME};

pub fn u8() -> u8 {
    imp::raw8()
}
pub fn u16() -> u16 {
    imp::raw16()
}
pub fn u32() -> u32 {
    imp::raw32()
}
pub fn u64() -> u64 {
    imp::raw64()
}
pub fn u128() -> u128 {
    imp::raw128()
}
pub fn usize() -> usize {
    imp::raw64() as usize
}
pub fn i8() -> i8 {
    imp::raw8() as i8
}
pub fn i16() -> i16 {
    imp::raw16() as i16
}
pub fn i32() -> i32 {
    imp::raw32() as i32
}
pub fn i64() -> i64 {
    imp::raw64() as i64
}
pub fn i128() -> i128 {
    imp::raw128() as i128
}
pub fn isize() -> isize {
    imp::raw64() as isize
}
pub fn bool() -> bool {
    imp::raw8() & 1 == 1
}
pub fn assume(c: bool) {
    imp::assume(c)
}
/// A value in `lo..=hi`.
pub fn range(lo: usize, hi: usize) -> usize {
    #[cfg(kani)]
    let x = usize();
    #[cfg(not(kani))]
    let x = imp::within(8, lo as u128, hi as u128) as usize;
    assume(lo <= x && x <= hi);
    x
}
pub fn below(n: u8) -> u8 {
    #[cfg(kani)]
    let x = u8();
    #[cfg(not(kani))]
    let x = imp::within(1, 0, n as u128 - 1) as u8;
    assume(x < n);
    x
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}
/// 32 bytes drawn as four words (fewer symbols than byte-wise).
pub fn b32() -> [u8; 32] {
    let w = [u64(), u64(), u64(), u64()];
    unsafe { core::mem::transmute(w) }
}
/// A vector of `len` symbolic bytes. `len` should be concrete where possible.
pub fn vec(len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let mut i = 0;
    while i < len {
        v.push(u8());
        i += 1;
    }
    v
}

/// Reachability witness: the run must show that the condition can hold at this point.
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}

/// Like `reach!`, but part of the property: the situation must be possible. When the solver shows
/// that it is not, the harness is run natively many times with random choices to confirm it.
#[macro_export]
macro_rules! must_reach {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        nd::must_hit($c, $m);
    }};
}

/// Declares the harnesses of a property: `harnesses! { [40] fn name() { .. } .. }`, the number being
/// the loop bound. Also builds the table used to replay counterexamples natively.
#[macro_export]
macro_rules! harnesses {
    // Elements of vectors are not dropped: for recursive values, whose drop code is endless to the solver.
    (leak $([$($u:tt)*] fn $name:ident() $body:block)*) => {
        $(nd::harness! { { #[cfg_attr(kani, kani::stub(std::ptr::drop_in_place, nd::stubs::no_drop))] } [$($u)*] fn $name() $body })*
        nd::harness_table! { $($name)* }
    };
    // Vectors that start empty get room for a fixed number of elements with the first one.
    (roomy $([$($u:tt)*] fn $name:ident() $body:block)*) => {
        $(nd::harness! { { #[cfg_attr(kani, kani::stub(std::vec::Vec::push, nd::stubs::push))] } [$($u)*] fn $name() $body })*
        nd::harness_table! { $($name)* }
    };
    // Harnesses of two kinds: as they are, and with functions replaced by models of what other harnesses show of them.
    (model $f:path => $m:path; $([$($u:tt)*] fn $name:ident() $body:block)* ; $([$($v:tt)*] fn $name2:ident() $body2:block)*) => {
        $(nd::harness! { { #[cfg_attr(kani, kani::stub($f, $m))] } [$($u)*] fn $name() $body })*
        $(nd::harness! { {} [$($v)*] fn $name2() $body2 })*
        nd::harness_table! { $($name)* $($name2)* }
    };
    ($([$($u:tt)*] fn $name:ident() $body:block)*) => {
        $(nd::harness! { {} [$($u)*] fn $name() $body })*
        nd::harness_table! { $($name)* }
    };
}
#[macro_export]
macro_rules! harness_table {
    ($($name:ident)*) => {
        #[cfg(not(kani))]
        pub static TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
#[macro_export]
macro_rules! harness {
    ({$(#[$extra:meta])*} [$u:literal $(, $solver:ident)?] fn $name:ident() $body:block) => {
            #[cfg_attr(kani, kani::proof)]
            $(#[$extra])*
            #[cfg_attr(kani, kani::unwind($u))]
            #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stubs::to_lowercase))]
            #[cfg_attr(kani, kani::stub(str::to_uppercase, nd::stubs::to_uppercase))]
            #[cfg_attr(kani, kani::stub(std::str::from_utf8, nd::stubs::from_utf8))]
            #[cfg_attr(kani, kani::stub(core::slice::memchr::memchr, nd::stubs::memchr))]
            #[cfg_attr(kani, kani::stub(core::slice::memchr::memrchr, nd::stubs::memrchr))]
            #[cfg_attr(kani, kani::stub(<core::str::pattern::CharSearcher as core::str::pattern::Searcher>::next_match, nd::stubs::next_match))]
            #[cfg_attr(kani, kani::stub(<core::str::pattern::CharSearcher as core::str::pattern::ReverseSearcher>::next_match_back, nd::stubs::next_match_back))]
            #[cfg_attr(kani, kani::stub(f32::powi, nd::stubs::powi32))]
            #[cfg_attr(kani, kani::stub(f64::powi, nd::stubs::powi64))]
            $(#[cfg_attr(kani, kani::solver($solver))])?
            pub fn $name() $body
    };
}

/// Entry point of the replay program: `<program> <harness> <file with one line of hex per value>`.
#[cfg(not(kani))]
pub fn replay_main(table: &[(&str, fn())]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        for (n, _) in table {
            println!("{n}");
        }
        return;
    }
    let text = std::fs::read_to_string(&args[2]).expect("values file");
    let vals = text
        .lines()
        .filter(|l| !l.starts_with('#'))
        .map(|l| {
            let l = l.trim();
            (0..l.len() / 2)
                .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
                .collect()
        })
        .collect();
    load(vals);
    for (n, f) in table {
        if *n == args[1] {
            if let Ok(runs) = std::env::var("VP_RANDOM") {
                std::panic::set_hook(Box::new(|_| {}));
                let runs: u64 = runs.parse().expect("number of runs");
                randomize(0x9E3779B97F4A7C15);
                for _ in 0..runs {
                    let f = *f;
                    let _ = std::panic::catch_unwind(f);
                }
                let never = never_hit();
                for m in &never {
                    println!("never reached in {runs} random runs: {m}");
                }
                std::process::exit(if never.is_empty() { 0 } else { 1 });
            }
            if let Ok(secs) = std::env::var("VP_SEARCH") {
                let end = std::time::Instant::now() + std::time::Duration::from_secs(secs.parse().expect("seconds"));
                std::panic::set_hook(Box::new(|_| {}));
                randomize(0x9E3779B97F4A7C15);
                let mut runs = 0u64;
                while std::time::Instant::now() < end {
                    search();
                    uf::reset();
                    runs += 1;
                    if let Err(e) = std::panic::catch_unwind(*f) {
                        if e.downcast_ref::<&str>() == Some(&"assumption") {
                            continue;
                        }
                        for v in taken() {
                            println!("value {}", v.iter().map(|b| format!("{b:02x}")).collect::<String>());
                        }
                        std::process::exit(1);
                    }
                }
                println!("search: {runs} runs");
                return;
            }
            f();
            println!("replay: {n} passed");
            return;
        }
    }
    eprintln!("no harness {}", args[1]);
    std::process::exit(78);
}

/// Collision-free hash standing in for keccak-256 / SHA-256: equal inputs give equal outputs,
/// different inputs give different outputs, nothing else is known about the values.
///
/// In a native build the digest is the real one, unless `VP_HASH=abstract` asks for the digests of
/// the counterexample; the recorded digests are consumed either way so that the values stay aligned.
pub mod uf {
    #[derive(Clone, Copy)]
    struct E {
        dom: u8,
        inp: &'static [u8],
        out: [u64; 4],
    }
    #[derive(Clone, Copy)]
    struct P {
        inp: [u128; 4],
        out: [u64; 4],
    }
    const CAP: usize = 60;
    static mut TABLE: [E; CAP] = [E { dom: 0x5a, inp: &[], out: [0x5afe_0ff0; 4] }; CAP];
    static mut PAIRS: [P; CAP] = [P { inp: [0x5afe_0ff1; 4], out: [0; 4] }; CAP];
    /// Marked: Kani lets a static share storage with constants of the same content.
    struct Counts {
        _mark: u64,
        used: usize,
        pairs: usize,
        numbered: bool,
    }
    static mut COUNTS: Counts = Counts { _mark: 0x5afe_4a54_0000_0001, used: 0, pairs: 0, numbered: false };
    /// From now on the hash of two values is not drawn but numbered: the n-th new pair of inputs has the n-th
    /// of a series of digests. Easier for the solver; the same up to the names of the digests. Goes with `any`.
    /// A value out of 2^16, which are more than a run compares, among them all numbered digests.
    pub fn any() -> [u8; 32] {
        let mut v = [0u8; 32];
        let x = super::u16().to_le_bytes();
        v[0] = x[0];
        v[31] = x[1];
        v
    }
    pub fn numbered() {
        unsafe {
            COUNTS.numbered = true;
        }
    }
    pub fn reset() {
        unsafe {
            COUNTS.used = 0;
            COUNTS.pairs = 0;
        }
    }
    fn bytes(w: &[u64; 4]) -> [u8; 32] {
        unsafe { core::mem::transmute(*w) }
    }
    fn words(b: &[u8; 32]) -> [u64; 4] {
        unsafe { core::mem::transmute(*b) }
    }
    fn same(a: &[u64; 4], b: &[u64; 4]) -> bool {
        a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]
    }
    #[cfg(not(kani))]
    fn abstract_mode() -> bool {
        std::env::var_os("VP_HASH").map_or(false, |v| v == "abstract")
    }
    fn equal(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        let mut r = true;
        while i < a.len() {
            r &= a[i] == b[i];
            i += 1;
        }
        r
    }

    /// Every call draws a result. Equal inputs have equal results and different inputs different ones.
    pub fn hash(dom: u8, inp: &[u8], real: fn(&[u8]) -> [u8; 32]) -> [u8; 32] {
        let mut out = [super::u64(), super::u64(), super::u64(), super::u64()];
        unsafe {
            let n = COUNTS.used;
            let mut i = 0;
            while i < n {
                let eq = TABLE[i].dom == dom && equal(TABLE[i].inp, inp);
                #[cfg(kani)]
                super::assume(eq == same(&TABLE[i].out, &out));
                if eq {
                    #[cfg(not(kani))]
                    {
                        out = TABLE[i].out;
                    }
                }
                i += 1;
            }
            assert!(n < CAP, "the model has room for this many hashes");
            TABLE[n] = E { dom, inp: inp.to_vec().leak(), out };
            COUNTS.used = n + 1;
        }
        #[cfg(not(kani))]
        if !abstract_mode() {
            return real(inp);
        }
        bytes(&out)
    }
    fn known(i: usize, l: [u128; 2], r: [u128; 2]) -> bool {
        let p = unsafe { PAIRS[i].inp };
        (p[0] == l[0]) & (p[1] == l[1]) & (p[2] == r[0]) & (p[3] == r[1])
    }
    fn remember(n: usize, l: [u128; 2], r: [u128; 2], out: [u64; 4]) {
        assert!(n < CAP, "the model has room for this many hashes");
        unsafe {
            PAIRS[n] = P { inp: [l[0], l[1], r[0], r[1]], out };
            COUNTS.pairs = n + 1;
        }
    }
    /// Numbered pairs: the codes of both inputs, followed by the one of the digest.
    static mut NUMBERS: [u64; CAP] = [0x5afe_0ff2; CAP];
    /// Values as `any` draws them are told apart by two of their bytes.
    fn code(v: &[u8; 32]) -> u64 {
        let w = words(v);
        assert!(w[0] >> 8 == 0 && w[1] == 0 && w[2] == 0 && w[3] << 8 == 0, "values of the model");
        w[0] | w[3] >> 48
    }
    fn digest(code: u64) -> [u8; 32] {
        bytes(&[code & 0xff, 0, 0, code >> 8 << 56])
    }
    fn add(key: u64, out: u64) -> [u8; 32] {
        unsafe {
            let n = COUNTS.pairs;
            assert!(n < CAP, "the model has room for this many hashes");
            NUMBERS[n] = key | out << 32;
            COUNTS.pairs = n + 1;
        }
        digest(out)
    }
    fn nth() -> u64 {
        let n = unsafe { 0x80 + COUNTS.pairs as u64 };
        n | n << 8
    }
    /// Numbered hash of a pair that is not the one of an earlier call: no hash contains itself.
    pub fn next(l: &[u8; 32], r: &[u8; 32], real: fn(&[u8]) -> [u8; 32]) -> [u8; 32] {
        #[cfg(kani)]
        {
            let key = code(l) | code(r) << 16;
            let mut i = 0;
            while i < unsafe { COUNTS.pairs } {
                super::assume(unsafe { NUMBERS[i] } as u32 as u64 != key);
                i += 1;
            }
            add(key, nth())
        }
        #[cfg(not(kani))]
        pair(l, r, real)
    }
    fn number(l: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
        let key = code(l) | code(r) << 16;
        let mut out = nth();
        let mut i = 0;
        while i < unsafe { COUNTS.pairs } {
            let e = unsafe { NUMBERS[i] };
            out = if e as u32 as u64 == key { e >> 32 } else { out };
            i += 1;
        }
        add(key, out)
    }
    fn draw(l: [u128; 2], r: [u128; 2]) -> [u64; 4] {
        let mut out = [super::u64(), super::u64(), super::u64(), super::u64()];
        let n = unsafe { COUNTS.pairs };
        let mut i = 0;
        while i < n {
            let eq = known(i, l, r);
            #[cfg(kani)]
            super::assume(eq == same(&unsafe { PAIRS[i].out }, &out));
            #[cfg(not(kani))]
            if eq {
                out = unsafe { PAIRS[i].out };
            }
            i += 1;
        }
        remember(n, l, r, out);
        out
    }
    /// The hash of two 32-byte values, apart from `hash` (inputs of another length never collide with it).
    pub fn pair(l: &[u8; 32], r: &[u8; 32], real: fn(&[u8]) -> [u8; 32]) -> [u8; 32] {
        #[cfg(not(kani))]
        if !abstract_mode() {
            let mut both = [0u8; 64];
            both[..32].copy_from_slice(l);
            both[32..].copy_from_slice(r);
            return real(&both);
        }
        if unsafe { COUNTS.numbered } {
            return number(l, r);
        }
        let out = draw(unsafe { core::mem::transmute(*l) }, unsafe { core::mem::transmute(*r) });
        bytes(&out)
    }
}

/// Replacements for standard-library functions whose table-driven code the solver cannot carry.
/// They only apply under the model checker; a counterexample is replayed against the real ones.
pub mod stubs {
    /// A byte buffer of fixed capacity: no growth, no symbolic allocation size.
    pub struct Buf {
        v: Vec<u8>,
        n: usize,
    }
    impl Buf {
        pub const CAP: usize = 160;
        pub fn new() -> Self {
            Buf { v: Vec::with_capacity(Self::CAP), n: 0 }
        }
        pub fn push(&mut self, b: u8) {
            super::assume(self.n < Self::CAP);
            unsafe { *self.v.as_mut_ptr().add(self.n) = b };
            self.n += 1;
        }
        pub fn into_vec(mut self) -> Vec<u8> {
            unsafe { self.v.set_len(self.n) };
            self.v
        }
        pub fn into_string(self) -> String {
            unsafe { String::from_utf8_unchecked(self.into_vec()) }
        }
    }

    /// Exact on ASCII and on the two other characters whose lower case contains ASCII (Kelvin sign
    /// and I with dot above); every other character is kept as it is.
    pub fn to_lowercase(s: &str) -> String {
        let b = s.as_bytes();
        let mut v = Buf::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == 0xE2 && i + 2 < b.len() && b[i + 1] == 0x84 && b[i + 2] == 0xAA {
                v.push(b'k');
                i += 3;
            } else if b[i] == 0xC4 && i + 1 < b.len() && b[i + 1] == 0xB0 {
                v.push(b'i');
                v.push(0xCC);
                v.push(0x87);
                i += 2;
            } else {
                v.push(b[i].to_ascii_lowercase());
                i += 1;
            }
        }
        v.into_string()
    }
    /// Exact on ASCII; every other character is kept as it is.
    pub fn to_uppercase(s: &str) -> String {
        let b = s.as_bytes();
        let mut v = Buf::new();
        let mut i = 0;
        while i < b.len() {
            v.push(b[i].to_ascii_uppercase());
            i += 1;
        }
        v.into_string()
    }
    pub fn memchr(x: u8, t: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < t.len() {
            if t[i] == x {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn memrchr(x: u8, t: &[u8]) -> Option<usize> {
        let mut i = t.len();
        while i > 0 {
            i -= 1;
            if t[i] == x {
                return Some(i);
            }
        }
        None
    }
    /// Same fields, in the same order, as the searcher for a character in the standard library of
    /// the pinned model checker.
    #[cfg(kani)]
    struct CharSearcher<'a> {
        haystack: &'a str,
        finger: usize,
        finger_back: usize,
        #[allow(dead_code)]
        needle: char,
        utf8_size: u8,
        utf8_encoded: [u8; 4],
    }
    #[cfg(kani)]
    fn here(h: &[u8], i: usize, n: usize, e: &[u8; 4]) -> bool {
        h[i] == e[0] && (n < 2 || h[i + 1] == e[1]) && (n < 3 || h[i + 2] == e[2]) && (n < 4 || h[i + 3] == e[3])
    }
    #[cfg(kani)]
    pub fn next_match<'a>(s: &mut core::str::pattern::CharSearcher<'a>) -> Option<(usize, usize)>
    where
        'a: 'a,
    {
        assert!(size_of::<core::str::pattern::CharSearcher<'a>>() == size_of::<CharSearcher<'a>>());
        let s: &mut CharSearcher<'a> = unsafe { &mut *(s as *mut _ as *mut CharSearcher<'a>) };
        let h = s.haystack.as_bytes();
        let n = s.utf8_size as usize;
        let mut i = s.finger;
        while i + n <= s.finger_back {
            if here(h, i, n, &s.utf8_encoded) {
                s.finger = i + n;
                return Some((i, i + n));
            }
            i += 1;
        }
        s.finger = s.finger_back;
        None
    }
    #[cfg(kani)]
    pub fn next_match_back<'a>(s: &mut core::str::pattern::CharSearcher<'a>) -> Option<(usize, usize)>
    where
        'a: 'a,
    {
        let s: &mut CharSearcher<'a> = unsafe { &mut *(s as *mut _ as *mut CharSearcher<'a>) };
        let h = s.haystack.as_bytes();
        let n = s.utf8_size as usize;
        let mut i = s.finger_back;
        while i >= s.finger + n {
            if here(h, i - n, n, &s.utf8_encoded) {
                s.finger_back = i - n;
                return Some((i - n, i));
            }
            i -= 1;
        }
        s.finger_back = s.finger;
        None
    }
    #[cfg(kani)]
    pub unsafe fn no_drop<T: ?Sized>(_: *mut T) {}
    /// `Vec::push` for vectors that start empty: room for eight elements (64 bytes in vectors of bytes) is
    /// made with the first one.
    #[cfg(kani)]
    pub fn push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
        if v.capacity() == 0 {
            let a: A = unsafe { std::mem::MaybeUninit::uninit().assume_init() };
            unsafe { std::ptr::write(v, Vec::with_capacity_in(if std::mem::size_of::<T>() == 1 { 64 } else { 8 }, a)) };
        }
        let n = v.len();
        if n == v.capacity() {
            v.reserve(1);
        }
        unsafe {
            std::ptr::write(v.as_mut_ptr().add(n), x);
            v.set_len(n + 1);
        }
    }
    pub fn powi32(x: f32, n: i32) -> f32 {
        let mut r = 1.0f32;
        let mut i = 0;
        while i < n.unsigned_abs() {
            r *= x;
            i += 1;
        }
        if n < 0 { 1.0 / r } else { r }
    }
    pub fn powi64(x: f64, n: i32) -> f64 {
        let mut r = 1.0f64;
        let mut i = 0;
        while i < n.unsigned_abs() {
            r *= x;
            i += 1;
        }
        if n < 0 { 1.0 / r } else { r }
    }
    /// Whether the bytes are well-formed UTF-8.
    pub fn valid_utf8(b: &[u8]) -> bool {
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            let left = b.len() - i;
            if c < 0x80 {
                i += 1;
            } else if c >= 0xC2 && c <= 0xDF {
                if left < 2 || b[i + 1] & 0xC0 != 0x80 {
                    return false;
                }
                i += 2;
            } else if c >= 0xE0 && c <= 0xEF {
                if left < 3 || b[i + 1] & 0xC0 != 0x80 || b[i + 2] & 0xC0 != 0x80 {
                    return false;
                }
                if (c == 0xE0 && b[i + 1] < 0xA0) || (c == 0xED && b[i + 1] > 0x9F) {
                    return false;
                }
                i += 3;
            } else if c >= 0xF0 && c <= 0xF4 {
                if left < 4 || b[i + 1] & 0xC0 != 0x80 || b[i + 2] & 0xC0 != 0x80 || b[i + 3] & 0xC0 != 0x80 {
                    return false;
                }
                if (c == 0xF0 && b[i + 1] < 0x90) || (c == 0xF4 && b[i + 1] > 0x8F) {
                    return false;
                }
                i += 4;
            } else {
                return false;
            }
        }
        true
    }
    pub fn from_utf8(b: &[u8]) -> Result<&str, std::str::Utf8Error> {
        if valid_utf8(b) {
            Ok(unsafe { std::str::from_utf8_unchecked(b) })
        } else {
            // only its presence matters
            Err(unsafe { std::mem::transmute::<[u64; 2], std::str::Utf8Error>([0, 0]) })
        }
    }
}

/// A string over `len` symbolic bytes, any well-formed UTF-8.
pub fn utf8<const N: usize>() -> String {
    let b: [u8; N] = arr();
    assume(stubs::valid_utf8(&b));
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
