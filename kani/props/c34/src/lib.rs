//! C34: checked arithmetic.
#[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
pub mod safe_arith;

use safe_arith::{ArithError, SafeArith, SafeArithIter};

fn is_overflow<T>(r: Result<T, ArithError>) -> bool {
    matches!(r, Err(ArithError::Overflow))
}
fn is_div0<T>(r: Result<T, ArithError>) -> bool {
    matches!(r, Err(ArithError::DivisionByZero))
}

macro_rules! exact {
    ($a:ident, $b:ident, $safe:ident, $assign:ident, $reference:expr, $what:literal) => {{
        let (value, overflow) = $reference;
        let mut x = $a;
        let got = $a.$safe($b);
        let assigned = x.$assign($b);
        if overflow {
            assert!(is_overflow(got), $what);
            assert!(is_overflow(assigned) && x == $a, $what);
        } else {
            assert!(got == Ok(value), $what);
            assert!(assigned == Ok(()) && x == value, $what);
        }
        nd::reach!(overflow, "overflow reached");
    }};
}

/// Addition, subtraction and shifts.
macro_rules! linear {
    ($t:ident) => {{
        let a: $t = nd::$t();
        let b: $t = nd::$t();
        let s: u32 = nd::u32();
        let bits = <$t>::BITS;

        assert!(<$t as SafeArith>::ZERO == 0 && <$t as SafeArith>::ONE == 1, "constants");
        exact!(a, b, safe_add, safe_add_assign, a.overflowing_add(b), "addition");
        exact!(a, b, safe_sub, safe_sub_assign, a.overflowing_sub(b), "subtraction");

        let mut l = a;
        let mut g = a;
        let shl = a.safe_shl(s);
        let shr = a.safe_shr(s);
        let shla = l.safe_shl_assign(s);
        let shra = g.safe_shr_assign(s);
        if s >= bits {
            assert!(is_overflow(shl) && is_overflow(shr), "shift by the width or more");
            assert!(is_overflow(shla) && is_overflow(shra) && l == a && g == a, "assigning shift by the width or more");
        } else {
            assert!(shl == Ok(a.wrapping_shl(s)) && shla == Ok(()) && l == a.wrapping_shl(s), "left shift");
            assert!(shr == Ok(a.wrapping_shr(s)) && shra == Ok(()) && g == a.wrapping_shr(s), "right shift");
        }
        nd::reach!(s >= bits, "large shift reached");
    }};
}

macro_rules! multiply {
    ($t:ident) => {{
        let a: $t = nd::$t();
        let b: $t = nd::$t();
        exact!(a, b, safe_mul, safe_mul_assign, a.overflowing_mul(b), "multiplication");
    }};
}

macro_rules! divide {
    ($t:ident, $signed:literal) => {{
        let a: $t = nd::$t();
        let b: $t = nd::$t();
        let corner = $signed && a == <$t>::MIN && b.wrapping_add(1) == 0;
        let mut q = a;
        let mut r = a;
        let div = a.safe_div(b);
        let rem = a.safe_rem(b);
        let diva = q.safe_div_assign(b);
        let rema = r.safe_rem_assign(b);
        if b == 0 {
            assert!(is_div0(div) && is_div0(rem), "division by zero");
            assert!(is_div0(diva) && is_div0(rema) && q == a && r == a, "assigning division by zero");
        } else if corner {
            assert!(div.is_err() && diva.is_err() && q == a, "quotient not representable");
            // the remainder would be zero; refusing it is what the quotient does
            assert!(rem.is_err() || rem == Ok(0), "remainder of it");
            assert!(rema.is_ok() == rem.is_ok() && r == if rem.is_ok() { 0 } else { a }, "remainder of it");
        } else {
            let x = a / b;
            let y = a % b;
            assert!(div == Ok(x) && diva == Ok(()) && q == x, "division");
            assert!(rem == Ok(y) && rema == Ok(()) && r == y, "remainder");
        }
        nd::reach!(b == 0, "division by zero reached");
    }};
}

macro_rules! sum_for {
    ($t:ident, $wide:ident) => {{
        let v: [$t; 4] = [nd::$t(), nd::$t(), nd::$t(), nd::$t()];
        let n = nd::range(0, 4);
        let got = v[..n].iter().copied().safe_sum();
        // partial sums must be representable one after the other
        let mut acc: $wide = 0;
        let mut over = false;
        let mut i = 0;
        while i < n {
            acc += v[i] as $wide;
            over |= acc > <$t>::MAX as $wide || acc < <$t>::MIN as $wide;
            i += 1;
        }
        // with mixed signs the exact total may be representable although a partial sum is not;
        // both answers are then acceptable, a wrong value never is
        let total_fits = acc <= <$t>::MAX as $wide && acc >= <$t>::MIN as $wide;
        match got {
            Ok(x) => assert!(total_fits && x as $wide == acc, "sum value"),
            Err(e) => assert!(over && e == ArithError::Overflow, "sum overflow"),
        }
        if !over {
            assert!(got.is_ok(), "sum without overflow");
        }
        nd::reach!(over && n == 4, "sum overflow reached");
    }};
}

nd::harnesses! {
    [2] fn linear_u8() { linear!(u8) }
    [2, z3] fn multiply_u8() { multiply!(u8) }
    [2, z3] fn divide_u8() { divide!(u8, false) }
    [2] fn linear_u16() { linear!(u16) }
    [2, z3] fn multiply_u16() { multiply!(u16) }
    [2, z3] fn divide_u16() { divide!(u16, false) }
    [2] fn linear_u32() { linear!(u32) }
    [2, z3] fn multiply_u32() { multiply!(u32) }
    [2, z3] fn divide_u32() { divide!(u32, false) }
    [2] fn linear_u64() { linear!(u64) }
    [2, z3] fn multiply_u64() { multiply!(u64) }
    [2, z3] fn divide_u64() { divide!(u64, false) }
    [2] fn linear_usize() { linear!(usize) }
    [2, z3] fn multiply_usize() { multiply!(usize) }
    [2, z3] fn divide_usize() { divide!(usize, false) }
    [2] fn linear_i8() { linear!(i8) }
    [2, z3] fn multiply_i8() { multiply!(i8) }
    [2, z3] fn divide_i8() { divide!(i8, true) }
    [2] fn linear_i16() { linear!(i16) }
    [2, z3] fn multiply_i16() { multiply!(i16) }
    [2, z3] fn divide_i16() { divide!(i16, true) }
    [2] fn linear_i32() { linear!(i32) }
    [2, z3] fn multiply_i32() { multiply!(i32) }
    [2, z3] fn divide_i32() { divide!(i32, true) }
    [2] fn linear_i64() { linear!(i64) }
    [2, z3] fn multiply_i64() { multiply!(i64) }
    [2, z3] fn divide_i64() { divide!(i64, true) }
    [2] fn linear_isize() { linear!(isize) }
    [2, z3] fn multiply_isize() { multiply!(isize) }
    [2, z3] fn divide_isize() { divide!(isize, true) }
    [6] fn sum_u8() { sum_for!(u8, i32) }
    [6] fn sum_u64() { sum_for!(u64, i128) }
    [6] fn sum_i64() { sum_for!(i64, i128) }
    [6] fn sum_i32() { sum_for!(i32, i128) }
}
