//! Every way of handing a number to the library, wrapped so that a panic is an observation.
use crate::dec::*;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRules};
use std::convert::{TryFrom, TryInto};
use std::panic::{catch_unwind, AssertUnwindSafe, UnwindSafe};

thread_local! { static IN_CALL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// Runs a call of the code under test; a panic in it is an observation, not a failure of the harness.
pub fn watched<R>(f: impl FnOnce() -> R + UnwindSafe) -> std::thread::Result<R> {
    IN_CALL.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(f);
    IN_CALL.with(|c| c.set(c.get() - 1));
    r
}
pub fn quiet_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| if IN_CALL.with(|c| c.get()) == 0 { old(i) }));
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum C { Str, Neg, Zeros, NegZeros, Owned, OwnedNeg, U8, U16, U32, U64, Usize, I8, I16, I32, I64, Isize, I8n, I16n, I32n, I64n, Isizen, F32, F64, F32n, F64n, Operands, Custom }
pub const ALL: [C; 27] = [C::Str, C::Neg, C::Zeros, C::NegZeros, C::Owned, C::OwnedNeg, C::U8, C::U16, C::U32, C::U64, C::Usize, C::I8, C::I16, C::I32, C::I64, C::Isize, C::I8n, C::I16n, C::I32n, C::I64n, C::Isizen, C::F32, C::F64, C::F32n, C::F64n, C::Operands, C::Custom];

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Cat(u8), Err, Panic(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum OpsOut { Ok(Ops), Err, Panic(String) }

pub fn cat_u8(c: &PluralCategory) -> u8 {
    match c {
        PluralCategory::ZERO => 0, PluralCategory::ONE => 1, PluralCategory::TWO => 2,
        PluralCategory::FEW => 3, PluralCategory::MANY => 4, PluralCategory::OTHER => 5,
    }
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
pub struct Mine(pub Result<PluralOperands, String>);
impl TryInto<PluralOperands> for Mine {
    type Error = String;
    fn try_into(self) -> Result<PluralOperands, String> { self.0 }
}
pub fn po(o: &Ops) -> PluralOperands {
    PluralOperands { n: o.n, i: o.i, v: o.v, w: o.w, f: o.f, t: o.t }
}
pub fn from_po(p: &PluralOperands) -> Ops {
    Ops { n: p.n, i: p.i, v: p.v, w: p.w, f: p.f, t: p.t }
}
pub fn select<N: TryInto<PluralOperands>>(pr: &PluralRules, n: N) -> Out {
    match watched(AssertUnwindSafe(|| pr.select(n))) {
        Ok(Ok(c)) => Out::Cat(cat_u8(&c)),
        Ok(Err(_)) => Out::Err,
        Err(e) => Out::Panic(panic_text(e)),
    }
}
pub fn ops_of<N>(n: N) -> OpsOut where PluralOperands: TryFrom<N> {
    match watched(AssertUnwindSafe(|| PluralOperands::try_from(n))) {
        Ok(Ok(p)) => OpsOut::Ok(from_po(&p)),
        Ok(Err(_)) => OpsOut::Err,
        Err(e) => OpsOut::Panic(panic_text(e)),
    }
}
/// A concrete value handed to the library.
#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    S(String), O(String),
    U8(u8), U16(u16), U32(u32), U64(u64), Usize(usize),
    I8(i8), I16(i16), I32(i32), I64(i64), Isize(isize),
    F32(f32), F64(f64), Po(Ops), Mine(Ops),
}
impl Num {
    pub fn select(&self, pr: &PluralRules) -> Out {
        match self {
            Num::S(x) => select(pr, x.as_str()), Num::O(x) => select(pr, x.clone()),
            Num::U8(x) => select(pr, *x), Num::U16(x) => select(pr, *x), Num::U32(x) => select(pr, *x), Num::U64(x) => select(pr, *x), Num::Usize(x) => select(pr, *x),
            Num::I8(x) => select(pr, *x), Num::I16(x) => select(pr, *x), Num::I32(x) => select(pr, *x), Num::I64(x) => select(pr, *x), Num::Isize(x) => select(pr, *x),
            Num::F32(x) => select(pr, *x), Num::F64(x) => select(pr, *x),
            Num::Po(x) => select(pr, po(x)), Num::Mine(x) => select(pr, Mine(Ok(po(x)))),
        }
    }
    pub fn ops(&self) -> OpsOut {
        match self {
            Num::S(x) => ops_of(x.as_str()), Num::O(x) => ops_of(x.clone()),
            Num::U8(x) => ops_of(*x), Num::U16(x) => ops_of(*x), Num::U32(x) => ops_of(*x), Num::U64(x) => ops_of(*x), Num::Usize(x) => ops_of(*x),
            Num::I8(x) => ops_of(*x), Num::I16(x) => ops_of(*x), Num::I32(x) => ops_of(*x), Num::I64(x) => ops_of(*x), Num::Isize(x) => ops_of(*x),
            Num::F32(x) => ops_of(*x), Num::F64(x) => ops_of(*x),
            Num::Po(x) | Num::Mine(x) => OpsOut::Ok(*x),
        }
    }
}
/// The number in this carrier, if the carrier can hold it with the same visible digits.
pub fn carry(d: &Dec, c: C) -> Option<Num> {
    let text = d.text();
    let int = if d.frac.is_empty() { digits_u64(&d.int) } else { None };
    macro_rules! un { ($k:ident, $t:ty) => { int.and_then(|x| <$t>::try_from(x).ok()).map(Num::$k) }; }
    macro_rules! ne { ($k:ident, $t:ty) => { int.and_then(|x| <$t>::try_from(x).ok()).map(|x| Num::$k(-x)) }; }
    macro_rules! fl { ($k:ident, $t:ty, $s:expr) => {{ let x: $t = text.parse().unwrap(); if x.is_finite() && format!("{}", x) == text { Some(Num::$k($s * x)) } else { None } }}; }
    match c {
        C::Str => Some(Num::S(text)),
        C::Neg => Some(Num::S(format!("-{}", text))),
        C::Zeros => Some(Num::S(format!("000{}", text))),
        C::NegZeros => Some(Num::S(format!("-00{}", text))),
        C::Owned => Some(Num::O(text)),
        C::OwnedNeg => Some(Num::O(format!("-{}", text))),
        C::U8 => un!(U8, u8), C::U16 => un!(U16, u16), C::U32 => un!(U32, u32), C::U64 => un!(U64, u64), C::Usize => un!(Usize, usize),
        C::I8 => un!(I8, i8), C::I16 => un!(I16, i16), C::I32 => un!(I32, i32), C::I64 => un!(I64, i64), C::Isize => un!(Isize, isize),
        C::I8n => ne!(I8, i8), C::I16n => ne!(I16, i16), C::I32n => ne!(I32, i32), C::I64n => ne!(I64, i64), C::Isizen => ne!(Isize, isize),
        C::F32 => fl!(F32, f32, 1.0), C::F64 => fl!(F64, f64, 1.0), C::F32n => fl!(F32, f32, -1.0), C::F64n => fl!(F64, f64, -1.0),
        C::Operands => d.ops().map(Num::Po),
        C::Custom => d.ops().map(Num::Mine),
    }
}
pub fn carrier_named(s: &str) -> Option<C> {
    ALL.iter().copied().find(|c| format!("{:?}", c) == s)
}
