//! Under the model checker `format!` becomes plain pushes (`use_fast!`) or an empty string
//! (`use_none!`, for crates in which message text plays no role). Native builds use the real one.
pub use std::format as real_format;
pub use std::string::String;
pub use vfmt_macros::vformat;

pub struct W<'a, T: ?Sized>(pub &'a T);

pub trait VPushStr {
    fn vpush(&self, s: &mut String);
}
impl<T: AsRef<str> + ?Sized> VPushStr for &&&W<'_, T> {
    fn vpush(&self, s: &mut String) {
        s.push_str(self.0.as_ref())
    }
}
pub trait Int: Copy {
    fn parts(self) -> (bool, u128);
}
macro_rules! ints {
    ($($t:ty),*) => {$( impl Int for $t { #[allow(unused_comparisons)] fn parts(self) -> (bool, u128) {
        if self < 0 { (true, (self as i128).unsigned_abs()) } else { (false, self as u128) }
    } } )*};
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl<T: Int> Int for &T {
    fn parts(self) -> (bool, u128) {
        (*self).parts()
    }
}
pub trait VPushInt {
    fn vpush(&self, s: &mut String);
}
impl<T: Int> VPushInt for &&W<'_, T> {
    fn vpush(&self, s: &mut String) {
        let (neg, v) = self.0.parts();
        if neg {
            s.push('-');
        }
        let mut v = v as u64;
        let mut buf = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            buf[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        s.push_str(unsafe { std::str::from_utf8_unchecked(&buf[i..]) });
    }
}
pub trait VPushChar {
    fn vpush(&self, s: &mut String);
}
impl VPushChar for &W<'_, char> {
    fn vpush(&self, s: &mut String) {
        s.push(*self.0)
    }
}
pub trait VPushDisplay {
    fn vpush(&self, s: &mut String);
}
impl<T: std::fmt::Display + ?Sized> VPushDisplay for W<'_, T> {
    fn vpush(&self, s: &mut String) {
        push_fmt(s, format_args!("{}", self.0))
    }
}
pub trait VHexInt {
    fn vhex(&self, s: &mut String, width: usize, upper: bool);
}
impl<T: Int> VHexInt for &W<'_, T> {
    fn vhex(&self, s: &mut String, width: usize, upper: bool) {
        let (_, mut v) = self.0.parts();
        let mut buf = [b'0'; 32];
        let mut i = 32;
        loop {
            i -= 1;
            let d = (v & 15) as u8;
            buf[i] = if d < 10 { b'0' + d } else if upper { b'A' + d - 10 } else { b'a' + d - 10 };
            v >>= 4;
            if v == 0 {
                break;
            }
        }
        if 32 - i < width {
            i = 32 - width;
        }
        s.push_str(unsafe { std::str::from_utf8_unchecked(&buf[i..]) });
    }
}
pub trait VHexDisplay {
    fn vhex(&self, s: &mut String, width: usize, upper: bool);
}
impl<T: std::fmt::LowerHex + std::fmt::UpperHex + ?Sized> VHexDisplay for W<'_, T> {
    fn vhex(&self, s: &mut String, width: usize, upper: bool) {
        match (width, upper) {
            (0, false) => push_fmt(s, format_args!("{:x}", self.0)),
            (0, true) => push_fmt(s, format_args!("{:X}", self.0)),
            (_, false) => push_fmt(s, format_args!("{:02x}", self.0)),
            (_, true) => push_fmt(s, format_args!("{:02X}", self.0)),
        }
    }
}
pub fn push_fmt(s: &mut String, a: std::fmt::Arguments<'_>) {
    let _ = std::fmt::Write::write_fmt(s, a);
}

