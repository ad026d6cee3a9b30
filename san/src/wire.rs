//! Calls as bytes, so that a workload is made natively and only replayed where execution is slow:
//! the reader costs little in Miri and reads the same on every target.
use crate::{Call, Num};
fn st(o: &mut Vec<u8>, s: &str) { o.extend_from_slice(&(s.len() as u32).to_le_bytes()); o.extend_from_slice(s.as_bytes()); }
fn w(o: &mut Vec<u8>, x: u64) { o.extend_from_slice(&x.to_le_bytes()); }
fn num(o: &mut Vec<u8>, n: &Num) {
    match n {
        Num::S(s) => { o.push(0); st(o, s) }
        Num::O(s) => { o.push(1); st(o, s) }
        Num::U8(x) => { o.push(2); w(o, *x as u64) }
        Num::U16(x) => { o.push(3); w(o, *x as u64) }
        Num::U32(x) => { o.push(4); w(o, *x as u64) }
        Num::U64(x) => { o.push(5); w(o, *x) }
        Num::Us(x) => { o.push(6); w(o, *x as u64) }
        Num::I8(x) => { o.push(7); w(o, *x as u64) }
        Num::I16(x) => { o.push(8); w(o, *x as u64) }
        Num::I32(x) => { o.push(9); w(o, *x as u64) }
        Num::I64(x) => { o.push(10); w(o, *x as u64) }
        Num::Is(x) => { o.push(11); w(o, *x as u64) }
        Num::F32(x) => { o.push(12); w(o, *x as u64) }
        Num::F64(x) => { o.push(13); w(o, *x) }
        Num::Po(a, b, c, d, e, f) => { o.push(14); for x in [*a, *b, *c as u64, *d as u64, *e, *f] { w(o, x) } }
        Num::Nested(a, b, c, d, e, f) => { o.push(15); for x in [*a, *b, *c as u64, *d as u64, *e, *f] { w(o, x) } }
        Num::Fails => o.push(16),
        Num::Panics => o.push(17),
    }
}
pub fn write(calls: &[Call]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in calls {
        match c {
            Call::Select(t, l, n) => { o.push(0); o.push(*t as u8); st(&mut o, l); num(&mut o, n) }
            Call::New(t, l) => { o.push(1); o.push(*t as u8); st(&mut o, l) }
            Call::Locales(t) => { o.push(2); o.push(*t as u8) }
            Call::Ops(n) => { o.push(3); num(&mut o, n) }
            Call::Rule(s) => { o.push(4); st(&mut o, s) }
            Call::Cond(s) => { o.push(5); st(&mut o, s) }
            Call::Gen(f) => { o.push(6); o.push(f.len() as u8); for s in f { st(&mut o, s) } }
            Call::Version => o.push(7),
            Call::NewBy(t, l, how) => { o.push(8); o.push(*t as u8); st(&mut o, l); o.push(*how) }
            Call::RuleBy(s, how) => { o.push(9); st(&mut o, s); o.push(*how) }
            Call::CondBy(s, how) => { o.push(10); st(&mut o, s); o.push(*how) }
        }
    }
    o
}
pub struct Reader { b: Vec<u8>, p: usize }
impl Reader {
    pub fn new(b: Vec<u8>) -> Reader { Reader { b, p: 0 } }
    fn u8(&mut self) -> u8 { self.p += 1; self.b[self.p - 1] }
    fn w(&mut self) -> u64 { let p = self.p; self.p += 8; u64::from_le_bytes([self.b[p], self.b[p + 1], self.b[p + 2], self.b[p + 3], self.b[p + 4], self.b[p + 5], self.b[p + 6], self.b[p + 7]]) }
    fn st(&mut self) -> String {
        let p = self.p;
        let n = u32::from_le_bytes([self.b[p], self.b[p + 1], self.b[p + 2], self.b[p + 3]]) as usize;
        self.p += 4 + n;
        String::from_utf8(self.b[p + 4..p + 4 + n].to_vec()).unwrap()
    }
    fn num(&mut self) -> Num {
        match self.u8() {
            0 => Num::S(self.st()), 1 => Num::O(self.st()),
            2 => Num::U8(self.w() as u8), 3 => Num::U16(self.w() as u16), 4 => Num::U32(self.w() as u32), 5 => Num::U64(self.w()), 6 => Num::Us(self.w() as u32),
            7 => Num::I8(self.w() as i8), 8 => Num::I16(self.w() as i16), 9 => Num::I32(self.w() as i32), 10 => Num::I64(self.w() as i64), 11 => Num::Is(self.w() as i32),
            12 => Num::F32(self.w() as u32), 13 => Num::F64(self.w()),
            14 => Num::Po(self.w(), self.w(), self.w() as u32, self.w() as u32, self.w(), self.w()),
            15 => Num::Nested(self.w(), self.w(), self.w() as u32, self.w() as u32, self.w(), self.w()),
            16 => Num::Fails,
            17 => Num::Panics,
            x => panic!("{}", x),
        }
    }
    pub fn next(&mut self) -> Option<Call> {
        if self.p == self.b.len() { return None; }
        Some(match self.u8() {
            0 => { let t = self.u8() as char; let l = self.st(); Call::Select(t, l, self.num()) }
            1 => { let t = self.u8() as char; Call::New(t, self.st()) }
            2 => Call::Locales(self.u8() as char),
            3 => Call::Ops(self.num()),
            4 => Call::Rule(self.st()),
            5 => Call::Cond(self.st()),
            6 => { let n = self.u8(); Call::Gen((0..n).map(|_| self.st()).collect()) }
            7 => Call::Version,
            8 => { let t = self.u8() as char; let l = self.st(); Call::NewBy(t, l, self.u8()) }
            9 => { let s = self.st(); Call::RuleBy(s, self.u8()) }
            10 => { let s = self.st(); Call::CondBy(s, self.u8()) }
            x => panic!("{}", x),
        })
    }
}
