//! C21: e2store entries and files.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
/// `std` with readers and writers that pass everything on at once, and files that do not exist.
pub mod s {
    pub use std::*;
    pub mod io {
        pub use vio::*;
        pub struct BufReader<R>(pub R);
        impl<R> BufReader<R> {
            pub fn new(r: R) -> Self {
                BufReader(r)
            }
        }
        impl<R: Read> Read for BufReader<R> {
            fn read(&mut self, b: &mut [u8]) -> Result<usize> {
                self.0.read(b)
            }
        }
        pub struct BufWriter<W>(pub W);
        impl<W> BufWriter<W> {
            pub fn new(w: W) -> Self {
                BufWriter(w)
            }
        }
        impl<W: Write> Write for BufWriter<W> {
            fn write(&mut self, b: &[u8]) -> Result<usize> {
                self.0.write(b)
            }
            fn flush(&mut self) -> Result<()> {
                self.0.flush()
            }
        }
    }
    pub mod fs {
        use super::io::{Error, Read, Result, Write};
        pub struct File;
        impl File {
            pub fn open<P>(_: P) -> Result<File> {
                unreachable!()
            }
            pub fn create<P>(_: P) -> Result<File> {
                unreachable!()
            }
        }
        impl Read for File {
            fn read(&mut self, _: &mut [u8]) -> Result<usize> {
                unreachable!()
            }
        }
        impl Write for File {
            fn write(&mut self, _: &[u8]) -> Result<usize> {
                unreachable!()
            }
            fn flush(&mut self) -> Result<()> {
                unreachable!()
            }
        }
    }
}
#[path = "/repo/crates/e2store/src/entry_types.rs"]
pub mod entry_types;
pub mod e2store {
    #[path = "/repo/crates/e2store/src/e2store/memory.rs"]
    pub mod memory;
    #[path = "/repo/crates/e2store/src/e2store/types.rs"]
    pub mod types;
    pub mod stream {
        use crate::s as std;
        include!("/repo/crates/e2store/src/e2store/stream.rs");
    }
}

use e2store::memory::E2StoreMemory;
use e2store::stream::*;
use e2store::types::*;
use s::io::{BufReader, BufWriter};

fn le32(b: &[u8]) -> usize {
    b[0] as usize | (b[1] as usize) << 8 | (b[2] as usize) << 16 | (b[3] as usize) << 24
}
/// The entry that starts at an offset: its end, if it is a good one.
fn end(b: &[u8], at: usize) -> Option<usize> {
    if b.len() - at < 8 || b[at + 6] != 0 || b[at + 7] != 0 {
        return None;
    }
    let length = le32(&b[at + 2..at + 6]);
    if length > b.len() - at - 8 {
        return None;
    }
    Some(at + 8 + length)
}
/// The entry is the one at these places.
fn is(e: &Entry, b: &[u8], from: usize, to: usize) {
    assert!(e.header.type_ == (b[from] as u16) << 8 | b[from + 1] as u16, "type of an entry");
    assert!(e.header.length as usize == to - from - 8 && e.header.reserved == 0, "header of an entry");
    assert!(e.value.len() == to - from - 8, "length of a value");
    let mut i = 0;
    while i < b.len() {
        assert!(i < from + 8 || i >= to || e.value[i - from - 8] == b[i], "value of an entry");
        i += 1;
    }
}
/// What comes after the good entries, where there is room for a header.
#[derive(Clone, Copy)]
enum Tail {
    /// Nothing, or too little for a header.
    Short,
    Length(u32),
    Reserved(u16),
}
use Tail::*;
fn put(b: &mut [u8], length: u32, reserved: u16) {
    b[2] = length as u8;
    b[3] = (length >> 8) as u8;
    b[4] = (length >> 16) as u8;
    b[5] = (length >> 24) as u8;
    b[6] = reserved as u8;
    b[7] = (reserved >> 8) as u8;
}
/// Any bytes whose first entries have these lengths.
fn bytes<const N: usize>(lens: &[usize], tail: Tail) -> [u8; N] {
    let mut b: [u8; N] = nd::arr();
    let mut at = 0;
    let mut i = 0;
    while i < lens.len() {
        put(&mut b[at..], lens[i] as u32, 0);
        at += 8 + lens[i];
        i += 1;
    }
    match tail {
        Short => assert!(N - at < 8),
        Length(l) => put(&mut b[at..], l, 0),
        Reserved(r) => put(&mut b[at..], 0, r),
    }
    b
}
/// Such bytes as a file.
fn file<const N: usize>(lens: &[usize], tail: Tail) {
    let b: [u8; N] = bytes(lens, tail);
    let most = lens.len() + 1;
    let got = E2StoreMemory::deserialize(&b);
    // where the entries are
    let mut ends = [0usize; 4];
    let (mut n, mut at, mut good) = (0, 0, true);
    while n < most && good && at < N {
        match end(&b, at) {
            Some(e) => {
                at = e;
                n += 1;
                ends[n] = e;
            }
            None => good = false,
        }
    }
    match &got {
        Ok(f) => {
            assert!(good && at == N, "bytes that are no file are refused");
            assert!(f.entries.len() == n, "number of entries");
            let mut i = 0;
            while i < most {
                if i < n {
                    is(&f.entries[i], &b, ends[i], ends[i + 1]);
                }
                i += 1;
            }
        }
        Err(_) => assert!(!good || at < N, "a file is read"),
    }
    nd::reach!(n == lens.len(), "all entries are good");
    std::mem::forget(got);
}
/// Any bytes as an entry, and as the start of a stream.
fn entry<const N: usize>() {
    let b: [u8; N] = nd::arr();
    let got = Entry::deserialize(&b);
    let whole = end(&b, 0) == Some(N);
    match &got {
        Ok(e) => {
            assert!(whole, "bytes that are no entry are refused");
            is(e, &b, 0, N);
            let v = VersionEntry::try_from(e);
            assert!(v.is_ok() == (N == 8 && b[0] == b'e' && b[1] == b'2'), "version entries");
            std::mem::forget(v);
        }
        Err(_) => assert!(!whole, "an entry is read"),
    }
    std::mem::forget(got);
    let header = Header::deserialize(&b);
    assert!(header.is_ok() == (N == 8 && b[6] == 0 && b[7] == 0), "headers");
    nd::reach!(whole || N < 8, "an entry");
}
fn streamed<const N: usize>(len: usize, reserved: u16) {
    let mut b: [u8; N] = nd::arr();
    if N >= 8 {
        put(&mut b, len as u32, reserved);
    }
    let mut r = match E2StoreStreamReader::new(BufReader::new(&b[..])) {
        Ok(r) => r,
        Err(_) => panic!("a reader"),
    };
    let got = r.next_entry();
    match (&got, end(&b, 0)) {
        (Ok(e), Some(to)) => is(e, &b, 0, to),
        (Err(_), None) => (),
        _ => panic!("a stream is read entry by entry"),
    }
    nd::reach!(got.is_ok() || N < 8 + len || reserved > 0, "an entry");
    std::mem::forget(got);
}
fn any_entry(len: usize) -> Entry {
    Entry::new(nd::u16(), nd::vec(len))
}
/// Entries are written as they are read.
fn written(first: usize, second: usize) {
    let (a, b) = (any_entry(first), any_entry(second));
    assert!(a.length() == 8 + first && a.header.length as usize == first && a.header.reserved == 0, "header of a new entry");
    let mut bytes = Vec::with_capacity(40);
    let mut w = match E2StoreStreamWriter::new(BufWriter::new(&mut bytes)) {
        Ok(w) => w,
        Err(_) => panic!("a writer"),
    };
    assert!(w.append_entry(&a).is_ok() && w.append_entry(&b).is_ok() && w.flush().is_ok(), "entries are appended");
    let total = 16 + first + second;
    assert!(bytes.len() == total, "length of a file");
    assert!(end(&bytes, 0) == Some(8 + first), "first entry");
    is(&a, &bytes, 0, 8 + first);
    assert!(end(&bytes, 8 + first) == Some(total), "second entry");
    is(&b, &bytes, 8 + first, total);
    let file = E2StoreMemory { entries: two(a, b) };
    assert!(file.length() == total, "length of a file in memory");
    match Vec::<u8>::try_from(file) {
        Ok(v) => {
            assert!(v.len() == total, "length of a written file");
            let mut i = 0;
            while i < total {
                assert!(v[i] == bytes[i], "a file in memory is written as a stream is");
                i += 1;
            }
        }
        Err(_) => panic!("a file is written"),
    }
    nd::reach!(true, "reached");
}
fn two(a: Entry, b: Entry) -> Vec<Entry> {
    let mut v = Vec::with_capacity(2);
    v.push(a);
    v.push(b);
    v
}

nd::harnesses! {
    [28] fn file_0() { file::<0>(&[], Short) }
    [28] fn file_1() { file::<1>(&[], Short) }
    [28] fn file_5() { file::<5>(&[], Short) }
    [28] fn file_7() { file::<7>(&[], Short) }
    [28] fn file_8_0() { file::<8>(&[0], Short) }
    [28] fn file_8_length_x1() { file::<8>(&[], Length(0x1)) }
    [28] fn file_8_length_xfffffff7() { file::<8>(&[], Length(0xfffffff7)) }
    [28] fn file_8_length_xfffffff8() { file::<8>(&[], Length(0xfffffff8)) }
    [28] fn file_8_length_xffffffff() { file::<8>(&[], Length(0xffffffff)) }
    [28] fn file_8_reserved_1() { file::<8>(&[], Reserved(1)) }
    [28] fn file_8_reserved_x8000() { file::<8>(&[], Reserved(0x8000)) }
    [28] fn file_11_3() { file::<11>(&[3], Short) }
    [28] fn file_11_2() { file::<11>(&[2], Short) }
    [28] fn file_11_0() { file::<11>(&[0], Short) }
    [28] fn file_11_length_4() { file::<11>(&[], Length(4)) }
    [28] fn file_16_0_0() { file::<16>(&[0, 0], Short) }
    [28] fn file_16_8() { file::<16>(&[8], Short) }
    [28] fn file_16_7() { file::<16>(&[7], Short) }
    [28] fn file_16_1() { file::<16>(&[1], Short) }
    [28] fn file_16_0_length_1() { file::<16>(&[0], Length(1)) }
    [28] fn file_16_0_length_xfffffff8() { file::<16>(&[0], Length(0xfffffff8)) }
    [28] fn file_16_0_reserved_x100() { file::<16>(&[0], Reserved(0x100)) }
    [28] fn file_16_length_9() { file::<16>(&[], Length(9)) }
    [28] fn file_19_3_0() { file::<19>(&[3, 0], Short) }
    [28] fn file_19_0_3() { file::<19>(&[0, 3], Short) }
    [28] fn file_19_0_2() { file::<19>(&[0, 2], Short) }
    [28] fn file_19_3_length_x100() { file::<19>(&[3], Length(0x100)) }
    [28] fn file_24_0_0_0() { file::<24>(&[0, 0, 0], Short) }
    [28] fn file_24_5_3() { file::<24>(&[5, 3], Short) }
    [28] fn file_24_16() { file::<24>(&[16], Short) }
    [28] fn file_24_0_0_length_xffffffff() { file::<24>(&[0, 0], Length(0xffffffff)) }
    [28] fn file_24_0_8() { file::<24>(&[0, 8], Short) }
    [30] fn entry_0() { entry::<0>() }
    [30] fn entry_7() { entry::<7>() }
    [30] fn entry_8() { entry::<8>() }
    [30] fn entry_9() { entry::<9>() }
    [30] fn entry_14() { entry::<14>() }
    [20] fn stream_0_0() { streamed::<0>(0, 0) }
    [20] fn stream_7_0() { streamed::<7>(0, 0) }
    [20] fn stream_8_0() { streamed::<8>(0, 0) }
    [20] fn stream_8_0_bad() { streamed::<8>(0, 2) }
    [20] fn stream_8_1() { streamed::<8>(1, 0) }
    [20] fn stream_12_4() { streamed::<12>(4, 0) }
    [20] fn stream_12_2() { streamed::<12>(2, 0) }
    [20] fn stream_12_5() { streamed::<12>(5, 0) }
    [20] fn stream_12_4_bad() { streamed::<12>(4, 256) }
    [30] fn written_0_0() { written(0, 0) }
    [30] fn written_3_1() { written(3, 1) }
    [30] fn written_2_5() { written(2, 5) }
}
