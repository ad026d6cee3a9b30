//! Calls of the public API as data, so that one and the same workload can be run natively, under
//! sanitizers, in Miri for other targets, in forked histories and from many threads, and its event
//! log (call, result) compared.
pub mod rng;
pub mod wire;
use intl_pluralrules::operands::PluralOperands;
use intl_pluralrules::{PluralCategory, PluralRuleType, PluralRules};
use rng::Rng;
use std::convert::{TryFrom, TryInto};
use std::panic::{catch_unwind, AssertUnwindSafe};
use unic_langid::LanguageIdentifier;

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    S(String), O(String),
    U8(u8), U16(u16), U32(u32), U64(u64), Us(u32),
    I8(i8), I16(i16), I32(i32), I64(i64), Is(i32),
    F32(u32), F64(u64),
    Po(u64, u64, u32, u32, u64, u64),
    /// A caller's own type, whose conversion itself selects on the same rule set and then gives these operands.
    Nested(u64, u64, u32, u32, u64, u64),
    /// A caller's own type whose conversion fails.
    Fails,
    /// A caller's own type whose conversion panics: that call fails, later ones must not notice.
    Panics,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Select(char, String, Num),
    New(char, String),
    Locales(char),
    Ops(Num),
    Rule(String),
    Cond(String),
    Gen(Vec<String>),
    Version,
    /// create, given a caller's own type that becomes the identifier (how: see `own`).
    NewBy(char, String, u8),
    /// The parsers, given a caller's own type that lends the text.
    RuleBy(String, u8),
    CondBy(String, u8),
}
/// What a caller's own conversion does besides: nothing, or calls of its own, or it panics.
fn own(how: u8) {
    match how {
        0 => {}
        1 => {
            let mut ok = create('C', "pl").map(|p| select_on(&p, &Num::S("2".into())) == "FEW").unwrap_or(false);
            ok &= create('O', "zz").is_err() && !PluralRules::get_locales(PluralRuleType::ORDINAL).is_empty();
            ok &= cldr_pluralrules_parser::parse_plural_condition("n = 1").is_ok() && cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1").is_ok();
            ok &= cldr_pluralrules_parser::parse_plural_condition("n =").is_err() && cldr_pluralrules_parser::parse_plural_rule("z").is_err();
            if !ok { panic!("a call within a conversion gives something else"); }
        }
        _ => panic!("the caller's conversion"),
    }
}
struct Named(LanguageIdentifier, u8);
impl From<Named> for LanguageIdentifier { fn from(n: Named) -> Self { own(n.1); n.0 } }
struct Lent<'a>(&'a str, u8);
impl<'a> AsRef<str> for Lent<'a> { fn as_ref(&self) -> &str { own(self.1); self.0 } }
thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
pub fn quiet_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| if QUIET.with(|c| c.get()) == 0 { old(i) }));
}
fn guarded(f: impl FnOnce() -> String) -> String {
    QUIET.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|c| c.set(c.get() - 1));
    match r {
        Ok(s) => s,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
            format!("panic {:?}", m)
        }
    }
}
pub fn ty(c: char) -> PluralRuleType { if c == 'C' { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL } }
fn po(n: u64, i: u64, v: u32, w: u32, f: u64, t: u64) -> PluralOperands {
    PluralOperands { n: f64::from_bits(n), i, v: v as usize, w: w as usize, f, t }
}
fn cat(c: PluralCategory) -> String {
    match c { PluralCategory::ZERO => "ZERO", PluralCategory::ONE => "ONE", PluralCategory::TWO => "TWO", PluralCategory::FEW => "FEW", PluralCategory::MANY => "MANY", PluralCategory::OTHER => "OTHER" }.into()
}
fn show(o: PluralOperands) -> String { format!("n={:016x} i={} v={} w={} f={} t={}", o.n.to_bits(), o.i, o.v, o.w, o.f, o.t) }

struct Nested<'a>(&'a PluralRules, PluralOperands);
impl<'a> TryInto<PluralOperands> for Nested<'a> {
    type Error = ();
    fn try_into(self) -> Result<PluralOperands, ()> {
        let a = self.0.select("1.0");
        let b = self.0.select("x").is_err();
        let c = self.0.clone().select(21u8);
        if a.is_ok() && b && c.is_ok() { Ok(self.1) } else { Err(()) }
    }
}
pub struct Fails;
impl TryInto<PluralOperands> for Fails {
    type Error = u8;
    fn try_into(self) -> Result<PluralOperands, u8> { Err(7) }
}
pub struct Panics;
impl TryInto<PluralOperands> for Panics {
    type Error = u8;
    fn try_into(self) -> Result<PluralOperands, u8> { panic!("the caller's conversion") }
}
fn sel<N: TryInto<PluralOperands>>(pr: &PluralRules, n: N) -> String {
    match pr.select(n) { Ok(c) => cat(c), Err(e) => format!("error {:?}", e) }
}
pub fn select_on(pr: &PluralRules, n: &Num) -> String {
    guarded(|| match n {
        Num::S(s) => sel(pr, s.as_str()), Num::O(s) => sel(pr, s.clone()),
        Num::U8(x) => sel(pr, *x), Num::U16(x) => sel(pr, *x), Num::U32(x) => sel(pr, *x), Num::U64(x) => sel(pr, *x), Num::Us(x) => sel(pr, *x as usize),
        Num::I8(x) => sel(pr, *x), Num::I16(x) => sel(pr, *x), Num::I32(x) => sel(pr, *x), Num::I64(x) => sel(pr, *x), Num::Is(x) => sel(pr, *x as isize),
        Num::F32(x) => sel(pr, f32::from_bits(*x)), Num::F64(x) => sel(pr, f64::from_bits(*x)),
        Num::Po(a, b, c, d, e, f) => sel(pr, po(*a, *b, *c, *d, *e, *f)),
        Num::Nested(a, b, c, d, e, f) => sel(pr, Nested(pr, po(*a, *b, *c, *d, *e, *f))),
        Num::Fails => sel(pr, Fails),
        Num::Panics => sel(pr, Panics),
    })
}
fn conv<N>(n: N) -> String where PluralOperands: TryFrom<N>, <PluralOperands as TryFrom<N>>::Error: std::fmt::Debug {
    match PluralOperands::try_from(n) { Ok(o) => show(o), Err(e) => format!("error {:?}", e) }
}
pub fn create(t: char, loc: &str) -> Result<PluralRules, String> {
    let id: LanguageIdentifier = match loc.parse() { Ok(i) => i, Err(_) => return Err("not an identifier".into()) };
    PluralRules::create(id, ty(t)).map_err(|e| format!("error {:?}", e))
}
pub fn eval(c: &Call) -> String {
    match c {
        Call::Select(t, l, n) => {
            match create_guarded(*t, l) { Ok(pr) => select_on(&pr, n), Err(e) => e }
        }
        Call::New(t, l) => match create_guarded(*t, l) { Ok(pr) => guarded(|| { let d = pr.clone(); format!("{} {}", pr.get_locale(), d.get_locale()) }), Err(e) => e },
        Call::Locales(t) => guarded(|| {
            let v = PluralRules::get_locales(ty(*t));
            let mut s = String::new();
            for l in v { s.push_str(&l.to_string()); s.push(' '); }
            s
        }),
        Call::Ops(n) => guarded(|| match n {
            Num::S(s) => conv(s.as_str()), Num::O(s) => conv(s.clone()),
            Num::U8(x) => conv(*x), Num::U16(x) => conv(*x), Num::U32(x) => conv(*x), Num::U64(x) => conv(*x), Num::Us(x) => conv(*x as usize),
            Num::I8(x) => conv(*x), Num::I16(x) => conv(*x), Num::I32(x) => conv(*x), Num::I64(x) => conv(*x), Num::Is(x) => conv(*x as isize),
            Num::F32(x) => conv(f32::from_bits(*x)), Num::F64(x) => conv(f64::from_bits(*x)),
            Num::Po(..) | Num::Nested(..) | Num::Fails | Num::Panics => "-".into(),
        }),
        Call::Rule(s) => guarded(|| format!("{:?}", cldr_pluralrules_parser::parse_plural_rule(s.as_str()))),
        Call::Cond(s) => guarded(|| format!("{:?}", cldr_pluralrules_parser::parse_plural_condition(s.as_str()))),
        Call::Gen(f) => guarded(|| make_pluralrules::generate_rs(f)),
        Call::Version => guarded(|| format!("{}", intl_pluralrules::CLDR_VERSION)),
        Call::NewBy(t, l, how) => match l.parse::<LanguageIdentifier>() {
            Ok(id) => guarded(|| match PluralRules::create(Named(id, *how), ty(*t)) { Ok(pr) => format!("{} {}", pr.get_locale(), pr.clone().get_locale()), Err(e) => format!("error {:?}", e) }),
            Err(_) => "not an identifier".into(),
        },
        Call::RuleBy(s, how) => guarded(|| format!("{:?}", cldr_pluralrules_parser::parse_plural_rule(Lent(s, *how)))),
        Call::CondBy(s, how) => guarded(|| format!("{:?}", cldr_pluralrules_parser::parse_plural_condition(Lent(s, *how)))),
    }
}
pub fn create_guarded(t: char, l: &str) -> Result<PluralRules, String> {
    let mut r = Err(String::new());
    let p = guarded(|| { r = create(t, l); String::new() });
    if p.is_empty() { r } else { Err(p) }
}
pub fn show_call(c: &Call) -> String {
    match c {
        Call::Select(t, l, n) => format!("select {} {} {:?}", t, l, n),
        Call::New(t, l) => format!("create {} {:?}", t, l),
        Call::Locales(t) => format!("get_locales {}", t),
        Call::Ops(n) => format!("operands {:?}", n),
        Call::Rule(s) => format!("parse_plural_rule {:?}", s),
        Call::Cond(s) => format!("parse_plural_condition {:?}", s),
        Call::Gen(f) => format!("generate_rs {:?}", f),
        Call::Version => "CLDR_VERSION".into(),
        Call::NewBy(t, l, how) => format!("create {} {:?}, named by a caller's own type {}", t, l, how),
        Call::RuleBy(s, how) => format!("parse_plural_rule {:?}, lent by a caller's own type {}", s, how),
        Call::CondBy(s, how) => format!("parse_plural_condition {:?}, lent by a caller's own type {}", s, how),
    }
}
pub fn kind(c: &Call) -> &'static str {
    match c { Call::Select(..) => "select", Call::New(..) => "create", Call::Locales(_) => "get_locales", Call::Ops(_) => "operands", Call::Rule(_) => "parse_plural_rule", Call::Cond(_) => "parse_plural_condition", Call::Gen(_) => "generate_rs", Call::Version => "version", Call::NewBy(..) => "create_own", Call::RuleBy(..) => "parse_plural_rule_own", Call::CondBy(..) => "parse_plural_condition_own" }
}

// ------------------------------------------------------------------ workloads

pub fn locales() -> Vec<(char, String)> {
    include_str!("../../data/locales.txt").lines().map(|l| (l.chars().next().unwrap(), l[2..].to_string())).collect()
}
pub const FRACS: &[&str] = &["0", "1", "2", "5", "9", "00", "01", "10", "11", "12", "20", "21", "50", "99", "000", "001", "010", "100", "101", "0000001", "123456789", "000000"];
const INTS: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21, 22, 23, 24, 31, 40, 41, 60, 80, 81, 99, 100, 101, 102, 103, 104, 111, 112, 113, 200, 219, 255, 256, 1000, 1001, 1011, 10000, 20000, 32767, 32768, 40000, 65535, 65536, 100000, 100001, 111111, 200000, 1000000, 2000000, 1000001, 10000000,
    2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 4294967297, 4294967298, 4294967299, 4294967301, 4294967307, 4294967317, 8589934593, 10000000000, 1000000000000, 9007199254740991, 9007199254740992, 9007199254740993, 1000000000000000000, 9223372036854775806, 9223372036854775807, 9223372036854775808, 10000000000000000000, 18446744073709551614, 18446744073709551615];
pub fn int(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 | 1 => *r.pick(INTS),
        2 => r.below(130),
        3 => (1u64 << 32).wrapping_mul(1 + r.below(5)).wrapping_add(r.below(130)),
        4 => r.below(1_100_000),
        _ => r.mag(),
    }
}
pub fn num_text(r: &mut Rng) -> String {
    let i = int(r);
    let mut s = String::new();
    if r.chance(1, 6) { s.push('-'); }
    if r.chance(1, 8) { s.push_str(&"0".repeat(1 + r.below(3) as usize)); }
    s.push_str(&i.to_string());
    match r.below(5) {
        0 | 1 => {}
        2 | 3 => { s.push('.'); s.push_str(*r.pick(FRACS)); }
        _ => { s.push('.'); let n = 1 + r.below(18); for _ in 0..n { s.push((b'0' + r.below(10) as u8) as char); } }
    }
    s
}
pub const HOSTILE: &[&str] = &["", "-", "+", ".", "-.", "5.", ".5", "-.5", "--5", "-+5", "+5", "5-", "1e3", "1E3", "1e-3", "15e-1", "1.5e3", "1e400", "1e-400", "nan", "NaN", "inf", "-inf", "infinity", "Infinity", "0x10", "1_000", "1,000", "1.2.3", "1..2", " 5", "5 ", "5\n", "\u{0}", "5\u{0}", "é", "-é", "5.é", "é.5", "５", "٣", "1.٣", "−5", "1.\u{301}", "18446744073709551616", "18446744073709551616.5", "184467440737095516150", "0.18446744073709551616", "0.99999999999999999999", "99999999999999999999999999999999999999999999", "0.00000000000000000000000000000000000", "1.00000000000000000000000000000000", "00000000000000000000000000000001", "-0", "-0.0", "0.0", "\u{FEFF}1", "1\u{200B}", "💯", "-💯.💯", "1e18446744073709551616", "e", "1e", "e1", ".e1", "-e", "1.-5", "1.+5", "1.e5", "18446744073709549568e0", "1844674407370955161e1", "4294967296e0", "1e19", "1e20"];
pub fn hostile(r: &mut Rng) -> String {
    match r.below(4) {
        0 | 1 => r.pick(HOSTILE).to_string(),
        2 => {
            let mut v: Vec<char> = num_text(r).chars().collect();
            for _ in 0..1 + r.below(3) {
                let k = r.below(v.len() as u64 + 1) as usize;
                let c = *r.pick(&['-', '+', '.', 'e', 'E', ' ', '0', '9', 'é', '💯', '\u{0}', 'n', '_', ',', '\u{7f}', '\u{80}']);
                if r.chance(1, 3) && k < v.len() { v.remove(k); } else { v.insert(k, c); }
            }
            v.into_iter().collect()
        }
        _ => { let n = r.below(12); (0..n).map(|_| *r.pick(&['0', '1', '9', '.', '-', '+', 'e', 'é', '\u{1F4AF}', ' ', 'i', 'n', 'f', 'a', '\u{FFFD}'])).collect() }
    }
}
fn float64(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.pick(&[0.0f64, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 0.3, 1e15, 1e16, 1e17, 9007199254740993.0, 18446744073709549568.0, 18446744073709551616.0, 1e19, 1e20, 1e-7, 123456.789]).to_bits(),
        1 | 2 => (int(r) as f64).to_bits(),
        3 | 4 => ((r.below(100_000) as f64) / 100.0).to_bits(),
        5 => (-(r.below(10_000) as f64) / 10.0).to_bits(),
        6 => ((r.mag() as f64) / (r.mag() as f64 + 1.0)).to_bits(),
        _ => r.next(),
    }
}
fn float32(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.pick(&[0.0f32, -0.0, f32::NAN, f32::INFINITY, f32::MAX, f32::MIN_POSITIVE, 0.1, 0.3, 16777217.0, 1e15, 4294967296.0, 1.8446743e19, 1.8446744e19]).to_bits(),
        1 | 2 => (int(r) as f32).to_bits(),
        3 | 4 => ((r.below(100_000) as f32) / 100.0).to_bits(),
        _ => r.next() as u32,
    }
}
pub fn operands(r: &mut Rng) -> (u64, u64, u32, u32, u64, u64) {
    let i = int(r);
    if r.chance(1, 4) {
        // Any tuple a caller may construct.
        return (float64(r), int(r), r.below(20) as u32, r.below(20) as u32, int(r), int(r));
    }
    if r.chance(1, 2) { return ((i as f64).to_bits(), i, 0, 0, 0, 0); }
    let f = *r.pick(FRACS);
    let t = f.trim_end_matches('0');
    let n: f64 = format!("{}.{}", i, f).parse().unwrap();
    (n.to_bits(), i, f.len() as u32, t.len() as u32, f.parse().unwrap(), t.parse().unwrap_or(0))
}
pub fn num(r: &mut Rng) -> Num {
    match r.below(20) {
        0 | 1 | 2 => Num::S(num_text(r)),
        3 => Num::O(num_text(r)),
        4 => Num::S(hostile(r)),
        5 => Num::O(hostile(r)),
        6 => Num::U8(int(r) as u8), 7 => Num::U16(int(r) as u16), 8 => Num::U32(int(r) as u32), 9 => Num::U64(int(r)), 10 => Num::Us(int(r) as u32),
        11 => Num::I8(int(r) as i8), 12 => Num::I16(int(r) as i16), 13 => Num::I32(int(r) as i32),
        14 => { let x = int(r) as i64; Num::I64(if r.chance(1, 2) { x.wrapping_neg() } else { x }) }
        15 => { let x = int(r) as i32; Num::Is(if r.chance(1, 2) { x.wrapping_neg() } else { x }) }
        16 => Num::F32(float32(r)), 17 => Num::F64(float64(r)),
        18 => { let o = operands(r); Num::Po(o.0, o.1, o.2, o.3, o.4, o.5) }
        _ => if r.chance(1, 6) { Num::Panics } else if r.chance(1, 4) { Num::Fails } else { let o = operands(r); Num::Nested(o.0, o.1, o.2, o.3, o.4, o.5) }
    }
}
const IDS: &[&str] = &["und", "xx", "en-US", "en_us", "EN", "eN-latn", "pt-PT", "PT_pt", "pt", "pt-BR", "sr-Cyrl-RS", "zh-Hant", "ca-valencia", "de-1996-DE", "aaaaaaaa", "zz", "es-419", "x", "", "en-", "root", "iw", "no", "ars", "ARS"];
pub fn locale_name(r: &mut Rng, all: &[(char, String)]) -> String {
    if r.chance(1, 6) { return r.pick(IDS).to_string(); }
    if r.chance(1, 12) { return r.pick(&["pt", "pt-PT", "PT-pt", "pt-BR"]).to_string(); }
    let l = r.pick(all).1.clone();
    match r.below(10) { 0 => l.to_uppercase(), 1 => l.replace('-', "_"), 2 => format!("{}-ZZ", l), _ => l }
}
fn relation(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["n", "i", "v", "w", "f", "t"]));
    if r.chance(1, 2) { s.push_str(*r.pick(&[" % ", "%", " mod ", "  %  "])); s.push_str(*r.pick(&["10", "100", "1000000", "7"])); }
    s.push_str(*r.pick(&[" = ", " != ", "=", "!=", " in ", " not in ", " is ", " is not ", " within ", " not within "]));
    for k in 0..1 + r.below(3) {
        if k > 0 { s.push_str(*r.pick(&[",", ", ", " , "])); }
        s.push_str(&r.pick(INTS).to_string());
        if r.chance(1, 3) { s.push_str(".."); s.push_str(&r.pick(INTS).to_string()); }
    }
    s
}
pub fn condition(r: &mut Rng) -> String {
    let mut s = relation(r);
    for _ in 0..r.below(4) { s.push_str(*r.pick(&[" and ", " or ", "  or\t"])); s.push_str(&relation(r)); }
    s
}
pub fn rule(r: &mut Rng) -> String {
    let mut s = if r.chance(1, 8) { String::new() } else { condition(r) };
    if r.chance(1, 2) { s.push_str(*r.pick(&[" @integer 0, 1, 5~17, 100, …", "@integer 3", " @integer 2, ...", " @integer 0~15, 100, 1000, 10000, …", "  @integer  7~9"])); }
    if r.chance(1, 2) { s.push_str(*r.pick(&[" @decimal 0.0~1.5, 10.0, …", " @decimal 1.1", "@decimal 0.04, 1.5~2.25"])); }
    if r.chance(1, 4) {
        let mut v: Vec<char> = s.chars().collect();
        for _ in 0..1 + r.below(3) {
            let k = r.below(v.len() as u64 + 1) as usize;
            let c = *r.pick(&['n', ' ', '=', '!', '%', '.', ',', '@', '~', '…', '9', 'é', '\n', '\u{0}', '💯']);
            if r.chance(1, 3) && k < v.len() { v.remove(k); } else { v.insert(k, c); }
        }
        s = v.into_iter().collect();
    }
    s
}
/// Small input files for the generator; some of them are refused, each for one reason.
pub fn gen_files(r: &mut Rng, all: &[(char, String)]) -> Vec<String> {
    let mut files = vec![];
    let two = r.chance(1, 2);
    let fault = if r.chance(1, 2) { 0 } else { 1 + r.below(11) };
    let place = r.below(4);
    for k in 0..if two { 2 } else { 1 } {
        let t = if k == 0 || fault == 5 { "cardinal" } else { "ordinal" };
        let n = 1 + r.below(3);
        let mut locs = vec![];
        for j in 0..n {
            let bad = (k + j) % 4 == place || (j + 1 == n && k + 1 == if two { 2 } else { 1 });
            let mut cats = vec![];
            for c in ["zero", "one", "few"] {
                if !r.chance(1, 2) { continue; }
                let text = loop { let s = condition(r); if s.contains(" % ") || !s.contains('%') { break s } };
                cats.push(format!("\"pluralRule-count-{}\":\"{}\"", c, text.replace('\t', " ")));
            }
            if bad && fault == 1 { cats.push("\"pluralRule-count-lots\":\"n = 1\"".into()); }
            if bad && fault == 2 { cats.push(format!("\"pluralRule-count-many\":\"{}\"", r.pick(&["n =", "n = 1 x", "z = 3", "n = 1 and", "n % = 2", "n", "n == 1", "é"]))); }
            cats.push("\"pluralRule-count-other\":\" @integer 0~15\"".into());
            let name = if bad && fault == 3 { r.pick(&["not a locale", "", "e", "ca-valencia", "en-US-é", "de-1996"]).to_string() } else { r.pick(all).1.clone() };
            locs.push(format!("\"{}\":{{{}}}", name, cats.join(",")));
        }
        let v = if fault == 4 { *r.pick(&["x", "", "37.1.2.3", "é"]) } else if fault == 6 && k == 1 { "36" } else { "37" };
        let body = format!("{{\"supplemental\":{{\"version\":{{\"_unicodeVersion\":\"13.0.0\",\"_cldrVersion\":\"{}\"}},\"plurals-type-{}\":{{{}}}}}}}", v, t, locs.join(","));
        files.push(match fault {
            7 => { let k = body.char_indices().map(|(k, _)| k).nth(r.below(body.chars().count() as u64) as usize).unwrap(); body[..k].to_string() }
            8 => body.replace("supplemental", "extra"),
            9 => body.replace("plurals-type", "dates-type"),
            10 => body.replace("\"n", "[\"n"),
            _ => body,
        });
    }
    if fault == 11 { files.clear(); }
    files
}
/// A random call. `gen`: whether generator calls may be drawn.
pub fn call(r: &mut Rng, all: &[(char, String)], gen: bool) -> Call {
    match r.below(44) {
        40 | 41 => { let t = *r.pick(&['C', 'O']); let l = locale_name(r, all); Call::NewBy(t, l, r.below(3) as u8) }
        42 => { let s = rule(r); Call::RuleBy(s, r.below(3) as u8) }
        43 => { let s = condition(r); Call::CondBy(s, r.below(3) as u8) }
        0..=14 => { let t = *r.pick(&['C', 'O']); let l = if r.chance(5, 6) { let same: Vec<&(char, String)> = all.iter().filter(|x| x.0 == t).collect(); r.pick(&same).1.clone() } else { locale_name(r, all) }; Call::Select(t, l, num(r)) }
        15..=18 => { let t = *r.pick(&['C', 'O']); Call::New(t, locale_name(r, all)) }
        19 => Call::Locales(*r.pick(&['C', 'O'])),
        20..=27 => loop { let n = num(r); if !matches!(n, Num::Po(..) | Num::Nested(..) | Num::Fails | Num::Panics) { break Call::Ops(n) } },
        28..=32 => Call::Rule(rule(r)),
        33..=37 => Call::Cond(if r.chance(1, 2) { condition(r) } else { rule(r) }),
        38 if gen => Call::Gen(gen_files(r, all)),
        _ => Call::Version,
    }
}
/// What a monitor can say about one call by itself: identities that the answer must satisfy.
pub fn table_identity() -> Result<u64, String> {
    let mut n = 0;
    for t in ['C', 'O'] {
        let v = PluralRules::get_locales(ty(t));
        for l in &v {
            let text = l.to_string();
            let back: LanguageIdentifier = text.parse().map_err(|_| format!("{} table: {:?} is not a language identifier", t, text))?;
            if &back != l || back.cmp(l) != std::cmp::Ordering::Equal { return Err(format!("{} table: {:?} differs from the identifier its text denotes", t, text)); }
            let h = |x: &LanguageIdentifier| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() };
            if h(&back) != h(l) { return Err(format!("{} table: {:?} hashes differently from the identifier its text denotes", t, text)); }
            if back.language != l.language || back.script != l.script || back.region != l.region { return Err(format!("{} table: subtags of {:?}", t, text)); }
            let parts = format!("{}|{}|{}", l.language.as_str(), l.script.map(|s| s.as_str().to_string()).unwrap_or_default(), l.region.map(|s| s.as_str().to_string()).unwrap_or_default());
            if !parts.is_ascii() { return Err(format!("{} table: {:?} is not ASCII", t, parts)); }
            let pr = PluralRules::create(l.clone(), ty(t)).map_err(|_| format!("{} table: {} is listed but not found", t, text))?;
            if pr.get_locale() != l { return Err(format!("{} table: {} reported as {}", t, text, pr.get_locale())); }
            n += 1;
        }
    }
    Ok(n)
}
