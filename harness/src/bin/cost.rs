//! Work of one call as a function of the size of its input, for C20.
//!   cost list <seed> <random families>                    one family per line
//!   cost run <seed> <random families> <family> <size>     makes one call on the family's input of that size
//!   cost retain <kind> <calls>                            memory still held after so many different calls, at three points
//! The call happens in `measured_call`, which callgrind is told to count; allocations are counted here.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
#[path = "../rng.rs"]
#[allow(dead_code)]
mod rng;
use rng::Rng;

struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
fn grow(n: usize) { let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64; if ON.load(Relaxed) { BYTES.fetch_add(n as u64, Relaxed); PEAK.fetch_max(l, Relaxed); } }
fn shrink(n: usize) { LIVE.fetch_sub(n as i64, Relaxed); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { grow(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { shrink(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { grow(n); shrink(l.size()); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Clone, Copy, PartialEq)]
enum Api { Operands, Owned, Select, Rule, Cond, Gen }
enum Shape { Pump(String, String, String), Json(u8) }
struct Family { api: Api, name: String, shape: Shape }

fn text(s: &Shape, k: usize) -> String {
    match s {
        Shape::Pump(a, b, c) => format!("{}{}{}", a, b.repeat(k), c),
        Shape::Json(kind) => {
            let head = |t: &str| format!("{{\"supplemental\":{{\"version\":{{\"_unicodeVersion\":\"13.0.0\",\"_cldrVersion\":\"37\"}},\"plurals-type-{}\":{{", t);
            let name = |j: usize| format!("{}{}{}", (b'a' + (j / 676 % 26) as u8) as char, (b'a' + (j / 26 % 26) as u8) as char, (b'a' + (j % 26) as u8) as char);
            let one = |cond: String| format!("\"pluralRule-count-one\":\"{}\",\"pluralRule-count-other\":\"\"", cond);
            let mut s = head("cardinal");
            let mut locs: Vec<(String, String)> = Vec::new();
            match kind {
                0 => for j in 0..k { locs.push((name(j), one("n = 1".into()))) },
                1 => for j in (0..k).rev() { locs.push((format!("{}-{}{}", name(j / 50), (b'A' + (j % 50 / 26) as u8) as char, (b'A' + (j % 26) as u8) as char), one("i = 1 and v = 0".into()))) },
                2 => locs.push(("en".into(), one(format!("n = {}", (0..k).map(|j| j.to_string()).collect::<Vec<_>>().join(","))))),
                3 => locs.push(("en".into(), one(format!("n = {}", (0..k).map(|j| format!("{}..{}", j * 3, j * 3 + 1)).collect::<Vec<_>>().join(","))))),
                4 => locs.push(("en".into(), one((0..k).map(|j| format!("i % {} = 1", j + 2)).collect::<Vec<_>>().join(" or ")))),
                5 => locs.push(("en".into(), one((0..k).map(|j| format!("i % {} != 1", j + 2)).collect::<Vec<_>>().join(" and ")))),
                6 => locs.push(("en".into(), one(format!("n = 1 @integer {}, …", (0..k).map(|j| j.to_string()).collect::<Vec<_>>().join(", "))))),
                7 => { for j in 0..k { locs.push((name(j), one("n = 1".into()))) } locs.push(("zzz".into(), one("n = ".into()))) }
                8 => { s.push_str(&" \n\t".repeat(k)); locs.push(("en".into(), one("n = 1".into()))) }
                9 => for j in 0..k { locs.push((name(j), "\"pluralRule-count-zero\":\"n = 0\",\"pluralRule-count-one\":\"n = 1\",\"pluralRule-count-two\":\"n = 2\",\"pluralRule-count-few\":\"n = 3..4\",\"pluralRule-count-many\":\"n = 5..9,11\",\"pluralRule-count-other\":\"\"".into())) },
                11 => { let pre = format!("{{\"supplemental\":{{\"version\":{{\"_unicodeVersion\":\"13.0.0\",\"_cldrVersion\":\"37\"}}}}}}\u{1}"); s = pre.repeat(k) + &s; locs.push(("en".into(), one("n = 1".into()))) }
                12 => { for j in 0..k { locs.push((name(j), one("n = 1".into()))) } locs.push(("zzz".into(), "\"pluralRule-count-lots\":\"n = 1\"".into())) }
                13 => locs.push(("root".into(), one(format!("n = {}", (0..k).map(|j| j.to_string()).collect::<Vec<_>>().join(","))))),
                _ => locs.push(("en".into(), one(format!("n within {}", (0..k).map(|j| format!("{}..{}", j * 3, j * 3 + 1)).collect::<Vec<_>>().join(","))))),
            }
            s.push_str(&locs.iter().map(|(l, b)| format!("\"{}\":{{{}}}", l, b)).collect::<Vec<_>>().join(","));
            s.push_str("}}}");
            s
        }
    }
}
fn families(seed: u64, random: usize) -> Vec<Family> {
    let mut v: Vec<Family> = Vec::new();
    let texts: &[(&str, &str, &str)] = &[("", "7", ""), ("-", "7", ""), ("", "0", "5"), ("-", "0", "5.5"), ("1.", "0", ""), ("1.", "3", ""), ("0.5", "0", ""), ("0.", "0", "1"), ("", ".", ""), ("1", ".", "5"), ("", "-", "5"), ("", "e", ""), ("1e", "0", "1"), ("1e", "9", ""), ("1.5e", "9", ""), ("", " ", "5"), ("5", " ", ""), ("5", "é", ""), ("", "💯", ""), ("5.", "x", ""), ("", "1.", ""), ("", "\u{0}", ""), ("1.", "05", "é"), ("0", "0", ".0"), ("+", "1", ""), ("", "7", "x"), ("1.", "0", "x"), ("-", "0", "x"), ("1e", "0", ""), ("1.5", "5", "e1"), ("1", "0", "e-5"), ("", "0", "."), ("0.", "0", ""), ("", "٣", "")];
    for (a, b, c) in texts { for api in [Api::Operands, Api::Owned, Api::Select] { v.push(Family { api, name: format!("{:?}", (a, b, c)), shape: Shape::Pump(a.to_string(), b.to_string(), c.to_string()) }); } }
    let rules: &[(&str, &str, &str)] = &[
        ("n = 1", ",2", ""), ("n = 1", ", 2..3", ""), ("n = 1", " and i = 2", ""), ("n = 1", " or i = 2", ""), ("n = 1", " or i = 2 and v = 0", " @integer 1"), ("n != 1", ",2..4", " x"),
        ("", " ", "n = 1"), ("n", " ", "= 1"), ("n =", " ", "1"), ("n %", " ", "10 = 1"), ("n", " ", "% 10 = 1"), ("n % 10", " ", "= 1"), ("n = 1", " ", ",2"), ("n = 1,", " ", "2"), ("n = 1", " ", "..2"), ("n = 1..", " ", "2"), ("n = 1", " ", "and i = 1"), ("n = 1 and", " ", "i = 1"), ("n = 1", " ", "or i = 1"), ("n = 1 or", " ", "i = 1"), ("n is", " ", "not 1"), ("n not", " ", "in 1"), ("n = 1", "\n", ""), ("n = 1", "\t", "@integer 1"), ("n = 1 @integer", " ", "1"), ("n = 1 @integer 1", " ", ",2"), ("n = 1 @integer 1", " ", "@decimal 1.0"), ("n = 1", " ", "x"), ("", " ", ""), ("", " ", "@integer 1"),
        ("n = ", "0", "1"), ("n = ", "9", ""), ("n % ", "0", "5 = 1"), ("n = 1..", "0", "2"), ("n = 1 @integer 0", ", 2", ""), ("n = 1 @integer 0", ", 2~5", ", …"), ("n = 1 @decimal 0.0", ", 2.5", ", ..."), ("n = 1 @decimal 0.0", ", 2.5~7.5", ""), (" @integer 0", ", 3", ""), ("@decimal 0.", "0", "1"), ("n = 1 @integer 0", ", 2", " x"), ("n = 1", " and i = 2", " and"), ("n = 1", ",2", ","), ("n = 1", " or", ""), ("", "n", ""), ("", "é", ""), ("n = 1", "…", ""), ("n = 1 @integer 1", ", …", ""), ("n = 1", "@integer 1", ""), ("n = ", "1..", "2"), ("n % 10 within 1", ", 3..4", ""), ("n not within 1", ",4", " or i is not 5"), ("n = 1", " and n % 10 = 3..4,9 or f = 2", ""), ("", "@", ""), ("@integer", " ", "")];
    for (a, b, c) in rules { for api in [Api::Rule, Api::Cond] { v.push(Family { api, name: format!("{:?}", (a, b, c)), shape: Shape::Pump(a.to_string(), b.to_string(), c.to_string()) }); } }
    // The long parts again, each refused because of its end or its beginning.
    for (a, b) in [("n = 1", ",2"), ("n != 1", ", 2..3"), ("n = 1", " and i = 2"), ("n = 1", " or i = 2"), ("n % 10 = 1", " or i = 2 and v != 0,3"), ("n = 1 @integer 0", ", 2~5"), ("n = 1 @decimal 0.0", ", 2.5"), ("@integer 0", ", 2"), ("n = 1", " "), ("n = ", "0")] {
        for (z, e) in [("", " or z = 1"), ("", " and n"), ("", " @unknown"), ("", " or"), ("z", ""), ("@", "")] {
            v.push(Family { api: if v.len() % 5 == 0 { Api::Cond } else { Api::Rule }, name: format!("{:?}", (format!("{}{}", z, a), b, e)), shape: Shape::Pump(format!("{}{}", z, a), b.to_string(), e.to_string()) });
        }
    }
    for k in 0..=13u8 { v.push(Family { api: Api::Gen, name: format!("input of kind {}", k), shape: Shape::Json(k) }); }
    // Pumping: a random piece of a random text, repeated.
    let mut r = Rng::new(seed, "cost");
    let tokens = ["n", "i", "f", " ", "%", "mod", "10", "=", "!=", "is", "not", "in", "within", "1", "2", "..", ",", " and ", " or ", "@integer", "@decimal", "1.5", "~", "…", "...", "\n", "\t", "é", "x"];
    for _ in 0..random {
        let mut t: Vec<String> = Vec::new();
        for _ in 0..1 + r.below(3) {
            if !t.is_empty() { t.push(r.pick(&[" and ", " or ", "  or ", " and\t"]).to_string()); }
            for x in [*r.pick(&["n", "i", "v", "f", "t"]), *r.pick(&[" ", ""]), *r.pick(&["", "% 10", "mod 7"]), " ", *r.pick(&["=", "!=", "in", "not in", "within", "is"]), " ", *r.pick(&["1", "2..5", "007", "3"])] { t.push(x.into()); }
            for _ in 0..r.below(3) { t.push(r.pick(&[",", ", ", " , "]).to_string()); t.push(r.pick(&["1", "2..4", "6 .. 9"]).to_string()); }
        }
        if r.chance(1, 2) { for x in [" ", "@integer", " ", "1", ", ", "3~5", ", ", "…"] { t.push(x.into()); } }
        if r.chance(1, 3) { for x in [" ", "@decimal", " ", "1.0", ", ", "3.5~5.25"] { t.push(x.into()); } }
        for _ in 0..r.below(3) { let k = r.below(t.len() as u64) as usize; if r.chance(1, 2) { t[k] = r.pick(&tokens).to_string(); } else { t.insert(k, r.pick(&tokens).to_string()); } }
        let a = r.below(t.len() as u64) as usize;
        let b = (a + 1 + r.below(4) as usize).min(t.len());
        let (x, y, z) = (t[..a].concat(), t[a..b].concat(), if r.chance(1, 4) { t[a..].concat() } else { t[b..].concat() });
        if y.is_empty() { continue; }
        let api = *r.pick(&[Api::Rule, Api::Rule, Api::Cond]);
        v.push(Family { api, name: format!("{:?}", (&x, &y, &z)), shape: Shape::Pump(x, y, z) });
    }
    v
}
fn label(a: Api) -> &'static str { match a { Api::Operands => "PluralOperands::try_from(&str)", Api::Owned => "PluralOperands::try_from(String)", Api::Select => "select", Api::Rule => "parse_plural_rule", Api::Cond => "parse_plural_condition", Api::Gen => "generate_rs" } }

struct Ready { api: Api, text: String, owned: Option<String>, pr: intl_pluralrules::PluralRules, gen: Vec<String> }
#[no_mangle]
#[inline(never)]
extern "C" fn measured_call(r: &mut Ready) -> bool {
    use intl_pluralrules::operands::PluralOperands;
    use std::convert::TryFrom;
    // Dropping the result belongs to the work.
    match r.api {
        Api::Operands => PluralOperands::try_from(r.text.as_str()).is_ok(),
        Api::Owned => PluralOperands::try_from(r.owned.take().unwrap()).is_ok(),
        Api::Select => r.pr.select(r.text.as_str()).is_ok(),
        Api::Rule => cldr_pluralrules_parser::parse_plural_rule(r.text.as_str()).is_ok(),
        Api::Cond => cldr_pluralrules_parser::parse_plural_condition(r.text.as_str()).is_ok(),
        Api::Gen => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make_pluralrules::generate_rs(&r.gen))).is_ok(),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |k: usize| -> u64 { a[k].parse().unwrap() };
    if a[1] == "retain" { std::panic::set_hook(Box::new(|_| {})); return retain(&a[2], n(3)); }
    let fams = families(n(2), n(3) as usize);
    match a[1].as_str() {
        "list" => for f in &fams {
            // size of the small run: about this many characters
            let unit = match &f.shape { Shape::Pump(_, b, _) => b.len().max(1), Shape::Json(_) => 0 };
            let small = if f.api == Api::Gen { 150 } else { (6000 / unit).max(200) };
            // inputs whose pieces are locales cannot be made arbitrarily big
            let limited = matches!(f.shape, Shape::Json(0 | 1 | 7 | 9 | 12));
            println!("{}\t{}\t{}\t{}", small, label(f.api), f.name.replace(['\t', '\n'], " "), if limited { "locales" } else { "" });
        },
        _ => {
            std::panic::set_hook(Box::new(|_| {}));
            let f = &fams[n(4) as usize];
            let t = text(&f.shape, n(5) as usize);
            let pr = intl_pluralrules::PluralRules::create("pl".parse::<unic_langid::LanguageIdentifier>().unwrap(), intl_pluralrules::PluralRuleType::CARDINAL).unwrap();
            let mut r = Ready { api: f.api, owned: Some(t.clone()), gen: if f.api == Api::Gen { t.split('\u{1}').map(String::from).collect() } else { vec![] }, text: t, pr };
            let len = r.text.len();
            let base = LIVE.load(Relaxed);
            PEAK.store(base, Relaxed);
            ON.store(true, Relaxed);
            let ok = measured_call(&mut r);
            ON.store(false, Relaxed);
            println!("len {} accepted {} bytes {} peak {}", len, ok, BYTES.load(Relaxed), PEAK.load(Relaxed) - base);
        }
    }
}
/// Different calls in a row: what is still allocated after n/8, n/2 and n of them.
fn retain(kind: &str, n: u64) {
    use intl_pluralrules::{operands::PluralOperands, PluralRuleType, PluralRules};
    use std::convert::TryFrom;
    let id = |s: &str| s.parse::<unic_langid::LanguageIdentifier>().unwrap();
    let pr = PluralRules::create(id("pl"), PluralRuleType::CARDINAL).unwrap();
    let langs: Vec<unic_langid::LanguageIdentifier> = PluralRules::get_locales(PluralRuleType::CARDINAL);
    let mut points = Vec::new();
    for k in 1..=n {
        match kind {
            "text" => { let t = format!("{}.{}", k * 7919 % 100_003, k); let _ = PluralOperands::try_from(t.as_str()).is_ok(); let _ = pr.select(t).is_ok(); }
            "bad-text" => { let t = format!("x{}", k); let _ = PluralOperands::try_from(t.as_str()).is_ok(); let _ = pr.select(t).is_ok(); }
            "number" => { let _ = pr.select(k).is_ok(); let _ = pr.select(k as f64 / 8.0).is_ok(); let _ = pr.select(-(k as i64)).is_ok(); }
            "create" => { let l = langs[k as usize % langs.len()].clone(); if let Ok(p) = PluralRules::create(l, if k % 2 == 0 { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL }) { let q = p.clone(); let _ = q.select(k).is_ok(); } let _ = PluralRules::get_locales(PluralRuleType::ORDINAL).len(); }
            "unknown" => { let l: String = (0..3).map(|j| (b'a' + (k / 26u64.pow(j) % 26) as u8) as char).collect(); let x = id(&format!("{}-{:03}", l, k % 1000)); let _ = PluralRules::create(x, PluralRuleType::CARDINAL).is_ok(); }
            "rule" => { let t = format!("n % {} = {} or i = {}..{} @integer {}, {}~{}, …", k + 1, k, k, k + 5, k, k, k + 3); let _ = cldr_pluralrules_parser::parse_plural_rule(t.as_str()).is_ok(); let _ = cldr_pluralrules_parser::parse_plural_condition(t).is_ok(); }
            "bad-rule" => { let t = format!("n % {} = x{} or", k + 1, k); let _ = cldr_pluralrules_parser::parse_plural_rule(t.as_str()).is_ok(); let _ = cldr_pluralrules_parser::parse_plural_condition(t).is_ok(); }
            _ => { let mut t = text(&Shape::Json(0), 1).replace("n = 1", &format!("n = {}", k)); if k % 3 == 0 { t = t.replace("aaa", "a-b-c"); } let v = vec![t]; let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make_pluralrules::generate_rs(&v))).is_ok(); }
        }
        if k == n / 8 || k == n / 2 || k == n { points.push(LIVE.load(Relaxed)); }
    }
    // (the three numbers themselves are a handful of bytes)
    println!("live {} {} {}", points[0], points[1], points[2]);
}
