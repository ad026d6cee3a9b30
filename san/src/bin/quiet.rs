//! quiet <workload> <words> <batch> <from> <to> <result>
//!   makes the calls number from..to of a workload (see wire.rs) and of the words (literals of the
//!   sources) and big inputs in batches, each between two markers in the system call trace, and watches what no
//!   system call shows: environment variables, the C locale, the panic hook, buffered output.
//!   Nothing is ever printed here, so whatever appears on the standard streams comes from the calls.
use san::*;
use std::io::Write;
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicU64, Ordering};

static HOOKED: AtomicU64 = AtomicU64::new(0);
extern "C" {
    fn access(path: *const i8, mode: i32) -> i32;
    fn setlocale(what: i32, name: *const i8) -> *const i8;
}
fn mark(what: &str, k: usize) { let s = format!("/C21/{}/{}\0", what, k); unsafe { access(s.as_ptr() as *const i8, 0); } }
fn state() -> (Vec<(std::ffi::OsString, std::ffi::OsString)>, String) {
    let mut v: Vec<_> = std::env::vars_os().collect();
    v.sort();
    let l = unsafe { std::ffi::CStr::from_ptr(setlocale(6, std::ptr::null()) as *const _) };
    (v, l.to_string_lossy().to_string())
}
fn words(file: &str) -> Vec<Call> {
    let all = locales();
    let mut v = Vec::new();
    for (k, w) in std::fs::read_to_string(file).unwrap().lines().enumerate() {
        let (t, l) = &all[k % all.len()];
        for n in [Num::S(w.into()), Num::O(format!("-{}", w)), Num::S(format!("{}.0", w)), Num::S(format!("1.{}", w)), Num::S(format!("{}x", w))] { v.push(Call::Ops(n.clone())); v.push(Call::Select(*t, l.clone(), n)); }
        if let Ok(x) = w.parse::<u64>() {
            for (n, y) in [x, x.wrapping_add(1), x.wrapping_sub(1)].into_iter().enumerate() {
                v.push(Call::Select(*t, all[(k * 7 + n) % all.len()].1.clone(), Num::U64(y)));
                v.push(Call::Select(*t, l.clone(), Num::I64((y as i64).wrapping_neg())));
                v.push(Call::Select(*t, l.clone(), Num::F64((y as f64).to_bits())));
                v.push(Call::Ops(Num::F64((y as f64 / 100.0).to_bits())));
                v.push(Call::Ops(Num::I32(y as i32)));
                v.push(Call::Select(*t, l.clone(), Num::Po((y as f64).to_bits(), y, y as u32, y as u32, y, y)));
            }
            v.push(Call::Cond(format!("n % {} = {}..{}", x, x, x)));
            v.push(Call::Rule(format!("n = {} @integer {}~{}, …", x, x, x)));
        }
        v.push(Call::New(*t, w.into()));
        v.push(Call::Rule(w.into()));
        v.push(Call::Cond(w.into()));
        v.push(Call::Rule(format!("n = 1 {}", w)));
        v.push(Call::Cond(format!("i = 1 or {} = 1", w)));
    }
    v
}
/// Inputs of sizes at which code tends to take another way.
fn big() -> Vec<Call> {
    let mut v = Vec::new();
    for n in [100usize, 300, 1000, 3000, 10_000, 40_000, 140_000, 600_000] {
        for unit in ["9", "0", "1.", "x", " ", "é"] {
            for s in [unit.repeat(n), format!("1.{}", unit.repeat(n)), format!("-{}5", unit.repeat(n))] { v.push(Call::Ops(Num::S(s.clone()))); v.push(Call::Select('C', "en".into(), Num::O(s))); }
        }
        for (head, unit, tail) in [("n = 1", ",2", ""), ("n = 1", ",2", " x"), ("n = 1", " and i != 3..4", ""), ("n = 1", " or v = 0", ""), ("n = 1 @integer 1", ", 2", ", …"), ("n = 1 @decimal 1.5", ", 2.0~3.5", ""), ("n", " ", "= 1"), ("", " ", ""), ("n = ", "0", "1"), ("", "é", ""), ("@", "@", ""), ("n = 1 ", "or ", "")] {
            let s = format!("{}{}{}", head, unit.repeat(n), tail);
            v.push(Call::Rule(s.clone()));
            v.push(Call::Cond(s));
        }
        if n > 10_000 { continue; }
        let code = |k: usize| -> String { [k / 676, k / 26 % 26, k % 26].iter().map(|x| (b'a' + *x as u8) as char).collect() };
        let file = |body: String, tail: &str| format!("{{\"supplemental\":{{\"version\":{{\"_unicodeVersion\":\"1\",\"_cldrVersion\":\"37\"}},\"plurals-type-cardinal\":{{{}}}}}}}{}", body, tail);
        for tail in ["", "x"] {
            v.push(Call::Gen(vec![file((0..n).map(|k| format!("\"{}\":{{\"pluralRule-count-one\":\"i = {}\"}}", code(k), k)).collect::<Vec<_>>().join(","), tail)]));
            v.push(Call::Gen(vec![file(format!("\"en\":{{\"pluralRule-count-one\":\"i = 1{} @integer 1\"}}", ",2".repeat(n)), tail)]));
            v.push(Call::Gen(vec![file(format!("\"en\":{{\"pluralRule-count-one\":\"i = 1{}\"}}", " or n = 2 and v = 0".repeat(n.min(1000))), tail)]));
        }
    }
    v
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = |k: usize| -> usize { a[k].parse().unwrap() };
    let mut rd = wire::Reader::new(std::fs::read(&a[1]).unwrap());
    let mut calls = words(&a[2]);
    calls.extend(big());
    while let Some(c) = rd.next() { calls.push(c); }
    let (batch, from, to) = (p(3), p(4), p(5).min(calls.len()));
    std::panic::set_hook(Box::new(|_| { HOOKED.fetch_add(1, Ordering::Relaxed); }));
    let before = state();
    let mut found = Vec::new();
    let (mut k, mut done, mut panics) = (from, 0, 0);
    mark("start", from);
    while k < to {
        let end = (k + batch).min(to);
        mark("from", k);
        for c in &calls[k..end] {
            let r = eval(c);
            if r.starts_with("panic ") { panics += 1; }
            done += 1;
        }
        let _ = std::io::stdout().flush();
        let _ = std::io::stderr().flush();
        mark("to", end);
        let after = state();
        if after != before {
            let d: Vec<String> = after.0.iter().filter(|x| !before.0.contains(x)).chain(before.0.iter().filter(|x| !after.0.contains(x))).map(|x| format!("{:?}", x)).collect();
            found.push(format!("{} {} environment variables or locale changed: {} {:?}->{:?}", k, end, d.join(" "), before.1, after.1));
            break;
        }
        let h = HOOKED.load(Ordering::Relaxed);
        let _ = catch_unwind(|| panic!("probe"));
        if HOOKED.load(Ordering::Relaxed) != h + 1 { found.push(format!("{} {} the panic hook was replaced", k, end)); break; }
        k = end;
    }
    mark("end", k);
    let text = |k: usize| show_call(&calls[k.min(calls.len() - 1)]).replace('\n', "\\n");
    let mut o = String::new();
    for f in found { o.push_str(&format!("FOUND {}\n", f)); }
    o.push_str(&format!("STAT calls {}\nSTAT done {}\nSTAT panics {}\nFIRST {}\nLAST {}\nEND\n", calls.len(), done, panics, text(from), text(to.max(1) - 1)));
    for k in (from..to).step_by((to - from) / 10 + 1) { o.push_str(&format!("SAMPLE {}\n", text(k))); }
    std::fs::write(&a[6], o).unwrap();
}
