//! gendrv: runs scripts of calls to generated functions inside the simulator; see ../../libdrv/src/core.rs
//!   op gen LIBRARY FUNCTION ARG...   bits of the results, arguments as hexadecimal bits, several calls in a row
#[path = "../../libdrv/src/core.rs"]
mod core;
use crate::core::Op;

/// raw bits of arguments and results
pub trait Raw: Sized {
    fn put(&self, o: &mut String);
    fn get(_: u64) -> Self {
        panic!("script: argument type")
    }
}
macro_rules! int {
    ($($t:ty)*) => { $(impl Raw for $t {
        fn put(&self, o: &mut String) { o.push_str(&format!("{:x} ", *self as u64)); }
        fn get(v: u64) -> Self { v as $t }
    })* };
}
int!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
impl Raw for f32 {
    fn put(&self, o: &mut String) {
        o.push_str(&format!("{:x} ", self.to_bits()));
    }
    fn get(v: u64) -> f32 {
        f32::from_bits(v as u32)
    }
}
impl Raw for f64 {
    fn put(&self, o: &mut String) {
        o.push_str(&format!("{:x} ", self.to_bits()));
    }
    fn get(v: u64) -> f64 {
        f64::from_bits(v)
    }
}
impl Raw for bool {
    fn put(&self, o: &mut String) {
        o.push_str(if *self { "t " } else { "f " });
    }
    fn get(v: u64) -> bool {
        v & 1 == 1
    }
}
impl Raw for () {
    fn put(&self, _: &mut String) {}
}
impl<A: Raw, B: Raw> Raw for (A, B) {
    fn put(&self, o: &mut String) {
        self.0.put(o);
        self.1.put(o);
    }
}
impl<A: Raw, B: Raw, C: Raw> Raw for (A, B, C) {
    fn put(&self, o: &mut String) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
    }
}
impl<A: Raw, B: Raw, C: Raw, D: Raw> Raw for (A, B, C, D) {
    fn put(&self, o: &mut String) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o);
        self.3.put(o);
    }
}
impl<A: Raw> Raw for Option<A> {
    fn put(&self, o: &mut String) {
        match self {
            Some(x) => x.put(o),
            None => o.push_str("none "),
        }
    }
}
impl<A: Raw, const N: usize> Raw for [A; N] {
    fn put(&self, o: &mut String) {
        for x in self {
            x.put(o);
        }
    }
}

include!(concat!(env!("GEN_DIR"), "/glue.rs"));

fn call(op: &Op) -> String {
    assert!(op.kind == "gen", "script: unknown call");
    let args: Vec<u64> = op.a[2..].iter().map(|s| u64::from_str_radix(s, 16).expect("script: bits")).collect();
    let mut o = String::new();
    if !glue(&op.a[0], &op.a[1], &args, &mut o) {
        panic!("script: no function {} in {}", op.a[1], op.a[0]);
    }
    o
}

fn main() {
    crate::core::drive(call);
}
