//! C36: JSON-RPC parameters.
#[path = "/repo/crates/ethportal-api/src/types/jsonrpc/params.rs"]
pub mod params;

use params::Params;
use serde_json::{Map, Value};

#[derive(PartialEq)]
enum Kind {
    None,
    Array,
    Map,
    Refused,
}
/// Reads the value as parameters and follows it through every conversion.
fn check(v: &Value, again: Value, kind: Kind) {
    let p: Result<Params, _> = serde_json::from_value(again);
    match &p {
        Ok(p) => {
            match p {
                Params::None => assert!(kind == Kind::None, "absent parameters"),
                Params::Array(_) => assert!(kind == Kind::Array, "positional parameters"),
                Params::Map(_) => assert!(kind == Kind::Map, "named parameters"),
            }
            let w = serde_json::to_value(p);
            match &w {
                Ok(w) => assert!(w == v, "written as it was read"),
                Err(_) => panic!("parameters can be written"),
            }
            std::mem::forget(w);
        }
        Err(_) => assert!(kind == Kind::Refused, "parameters are accepted"),
    }
    if let Ok(p) = p {
        let w = Value::from(p);
        assert!(&w == v, "the equivalent value");
        std::mem::forget(w);
    } else {
        std::mem::forget(p);
    }
    nd::reach!(true, "checked");
}
/// A value without parts, of any kind.
fn scalar(kind: u8, n: u64) -> Value {
    match kind {
        0 => Value::Null,
        1 => Value::Bool(n & 1 == 1),
        2 => Value::from(n),
        _ => Value::from(n as i64),
    }
}
fn same(v: &Value, kind: u8, n: u64) -> bool {
    match kind {
        0 => matches!(v, Value::Null),
        1 => matches!(v, Value::Bool(b) if *b == (n & 1 == 1)),
        2 => v.as_u64() == Some(n),
        _ => v.as_i64() == Some(n as i64),
    }
}
macro_rules! array_out {
    ($($k:literal)*) => {{
        const KINDS: &[u8] = &[$($k),*];
        const N: usize = KINDS.len();
        let kinds: [u8; N] = [$($k),*];
        let mut n = [0u64; N];
        let mut v = Vec::with_capacity(4);
        let mut u = Vec::with_capacity(4);
        let mut i = 0;
        while i < N {
            n[i] = nd::u64();
            v.push(scalar(kinds[i], n[i]));
            u.push(scalar(kinds[i], n[i]));
            i += 1;
        }
        let check = |w: &Value| match w {
            Value::Array(a) => {
                assert!(a.len() == N, "as many values");
                let mut i = 0;
                while i < N {
                    assert!(same(&a[i], kinds[i], n[i]), "the same values in the same order");
                    i += 1;
                }
            }
            _ => panic!("an array stays an array"),
        };
        let w = Value::from(Params::Array(v));
        check(&w);
        std::mem::forget(w);
        let p = Params::Array(u);
        let w = serde_json::to_value(&p);
        match &w {
            Ok(w) => check(w),
            Err(_) => panic!("parameters can be written"),
        }
        std::mem::forget(w);
        std::mem::forget(p);
        nd::reach!(true, "checked");
    }};
}
nd::harnesses! { leak
    [6] fn null() { check(&Value::Null, Value::Null, Kind::None) }
    [6] fn boolean() { let b = nd::bool(); check(&Value::Bool(b), Value::Bool(b), Kind::Refused) }
    [6] fn natural() { let n = nd::u64(); check(&Value::from(n), Value::from(n), Kind::Refused) }
    [6] fn empty_map() { check(&Value::Object(Map::new()), Value::Object(Map::new()), Kind::Map) }
    [6] fn array_out_0() { array_out!() }
    [6] fn array_out_null() { array_out!(0) }
    [6] fn array_out_bool() { array_out!(1) }
    [6] fn array_out_2() { array_out!(2 1) }
}
