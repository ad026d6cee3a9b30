//! C01-C07: monitors at the public boundary of intl_pluralrules.
use crate::carriers::{self, *};
use crate::cldr::{self, Locale, CATS, OTHER};
use crate::dec::*;
use crate::nums;
use crate::par::*;
use crate::refsem::*;
use crate::report::*;
use crate::rng::Rng;
use intl_pluralrules::{PluralRuleType, PluralRules};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::AssertUnwindSafe;
use unic_langid::LanguageIdentifier;

pub fn rule_type(name: &str) -> PluralRuleType {
    if name == "cardinal" { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL }
}
pub fn create(name: &str, ty: PluralRuleType) -> Result<PluralRules, String> {
    let id: LanguageIdentifier = name.parse().map_err(|_| format!("identifier {} does not parse", name))?;
    match watched(AssertUnwindSafe(|| PluralRules::create(id, ty))) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    }
}
pub fn show(o: &Out) -> String {
    match o { Out::Cat(c) => CATS[*c as usize].to_uppercase(), Out::Err => "Err".into(), Out::Panic(m) => format!("panic: {}", m) }
}
pub fn select_case(ty: &str, loc: &str, c: C, d: &Dec) -> Value {
    json!(["select", ty, loc, format!("{:?}", c), d.text()])
}
/// The relations a known finding lists for this locale.
pub fn listed_for(known: &BTreeMap<String, (Vec<String>, String)>, ty: &str, loc: &str) -> BTreeSet<String> {
    known.get(&format!("{}/{}", ty, loc)).map(|(i, _)| i.iter().cloned().collect()).unwrap_or_default()
}
pub fn rel_key(cat: u8, r: &Rel) -> String { format!("{}: {}", CATS[cat as usize], r.text()) }

pub fn numbers_for(l: &Locale, r: &mut Rng, per: usize, comb: usize, rnd: usize) -> Vec<Dec> {
    let rels = l.relations();
    let mut v: Vec<Dec> = l.samples.iter().map(|(_, d)| d.clone()).collect();
    v.extend(nums::directed(&rels, r, per));
    v.extend(nums::combined(&rels, r, comb));
    v.extend((0..rnd).map(|_| nums::random_dec(r)));
    for bits in [8, 16, 24, 32, 40, 53] { v.extend(nums::wide(l, r, 1 + per / 4, bits, 60)); }
    v.retain(|d| d.in_domain());
    v.sort();
    v.dedup();
    v
}

struct LocOut { evals: u64, distinct: u64, bad: Vec<(String, Value)>, nbad: u64, known: u64, cats: BTreeSet<u8>, trivial: bool, carriers: BTreeSet<C>, sample: Option<Value> }

pub fn c01_c02(env: &Env, prop: &str) -> ! {
    let ty = if prop == "C01" { "cardinal" } else { "ordinal" };
    let mut rep = Report::new(env, prop);
    let cl = cldr::load(&env.root);
    let locs = if ty == "cardinal" { &cl.cardinal } else { &cl.ordinal };
    let upto = env.scale(200_000, 4_000_000);
    let mut common = nums::common(upto);
    common.extend(nums::from_dict(&mut Rng::new(env.seed, "dict"), env.scale(4, 20) as usize));
    common.sort();
    common.dedup();
    let common: Vec<(Dec, Ops)> = common.into_iter().map(|d| { let o = d.ops().unwrap(); (d, o) }).collect();
    let known = rep.known.clone();
    let outs = par(locs, |_, l| {
        let mut o = LocOut { evals: 0, distinct: 0, bad: vec![], nbad: 0, known: 0, cats: BTreeSet::new(), trivial: l.rules.is_empty(), carriers: BTreeSet::new(), sample: None };
        let pr = match create(&l.name, rule_type(ty)) {
            Ok(p) => p,
            Err(e) => { o.nbad += 1; o.bad.push((format!("{} {}: no rules: {}", ty, l.name, e), json!(["create", ty, l.name]))); return o; }
        };
        let listed = listed_for(&known, ty, &l.name);
        let is_listed = |k: u8, r: &Rel| listed.contains(&rel_key(k, r));
        let mut rng = Rng::new(env.seed, &format!("{}/{}", prop, l.name));
        let own: Vec<(Dec, Ops)> = numbers_for(l, &mut rng, env.scale(30, 400) as usize, env.scale(40_000, 1_000_000) as usize, env.scale(40_000, 1_000_000) as usize)
            .into_iter().map(|d| { let o = d.ops().unwrap(); (d, o) }).collect();
        let sample_want: BTreeMap<Dec, u8> = l.samples.iter().map(|(c, d)| (d.clone(), *c)).collect();
        for (k, (d, x)) in common.iter().chain(own.iter()).enumerate() {
            let want = l.spec(x);
            o.cats.insert(want);
            o.distinct += 1;
            let is_sample = k >= common.len() && sample_want.contains_key(d);
            if is_sample { assert_eq!(sample_want[d], want); }
            let rot = ALL[(k + rng.below(27) as usize) % ALL.len()];
            let all = k >= common.len() && k % 16 == 0 || is_sample;
            let check = |c: C, o: &mut LocOut| {
                let Some(num) = carry(d, c) else { return };
                let got = num.select(&pr);
                o.evals += 1;
                o.carriers.insert(c);
                if got == Out::Cat(want) { return; }
                let m = l.matching(x);
                if let Out::Cat(g) = got { if m.contains(&g) { return; } }
                if !listed.is_empty() && got == Out::Cat(l.with_quirks(x, &is_listed)) { o.known += 1; return; }
                o.nbad += 1;
                if o.bad.len() < 3 {
                    o.bad.push((format!("{} {}: {:?} {} -> {}, CLDR says {}", ty, l.name, c, d.text(), show(&got), CATS[want as usize].to_uppercase()), select_case(ty, &l.name, c, d)));
                }
            };
            check(C::Str, &mut o);
            if all { for c in ALL.iter().skip(1) { check(*c, &mut o); } } else if rot != C::Str { check(rot, &mut o); }
            if k == common.len() + 3 { o.sample = Some(json!(format!("{} {} {} -> {}", ty, l.name, d.text(), CATS[want as usize]))); }
        }
        o
    });
    let mut cats_seen = 0;
    let mut carriers_seen = BTreeSet::new();
    for (l, o) in locs.iter().zip(outs) {
        rep.evaluations += o.evals;
        if !o.trivial { rep.distinct += o.distinct; }
        rep.total_violations += o.nbad;
        for (s, c) in o.bad { if rep.violations.len() < 20 { rep.violations.push(Violation { summary: s, case: c }); } }
        for _ in 0..o.known.min(1) { rep.known_hits.insert(format!("{}/{}", ty, l.name), o.known); }
        for k in l.rules.iter().map(|r| r.0).chain(if l.samples.iter().any(|s| s.0 == OTHER) { Some(OTHER) } else { None }) {
            if o.nbad == 0 && !o.cats.contains(&k) { rep.inconclusive.push(format!("{} category {} never expected", l.name, CATS[k as usize])); }
        }
        cats_seen += o.cats.len();
        carriers_seen.extend(o.carriers);
        if let Some(s) = o.sample { if l.rules.len() > 1 { rep.sample(s); } }
    }
    rep.rule = "one select() call per (locale, number, carrier); numbers: all integers up to a bound, 0..=130 x fraction shapes, powers of 2 and 10 with neighbours, boundaries of every relation of the locale's rules at several multiples of the modulus, random of all magnitudes; distinct_nontrivial counts distinct (locale, visible digits) in locales that have a rule besides other".into();
    rep.put("locales", json!(locs.len()));
    rep.put("locale_category_pairs_expected", json!(cats_seen));
    rep.put("carriers_used", json!(carriers_seen.iter().map(|c| format!("{:?}", c)).collect::<Vec<_>>()));
    rep.put("common_numbers", json!(common.len()));
    rep.assumptions = vec!["oracle: own UTS 35 evaluator over data/cldr37_*.json, itself checked against all CLDR samples at start".into(), "f64 parsing of the Rust standard library".into()];
    rep.finish(env)
}

// ---------------------------------------------------------------- C03

pub fn c03(env: &Env) -> ! {
    let mut rep = Report::new(env, "C03");
    let cl = cldr::load(&env.root);
    let mut distinct = Distinct::default();
    for (ty, locs) in [("cardinal", &cl.cardinal), ("ordinal", &cl.ordinal)] {
        let names: BTreeSet<String> = locs.iter().map(|l| l.name.clone()).collect();
        // the list, several times
        for _ in 0..3 {
            let list = match watched(|| PluralRules::get_locales(rule_type(ty))) {
                Ok(l) => l,
                Err(e) => { rep.violate(format!("get_locales({}) panics: {}", ty, panic_text(e)), json!(["locales", ty])); continue; }
            };
            rep.evaluations += 1;
            let mut got = BTreeMap::new();
            for id in &list { *got.entry(id.to_string()).or_insert(0) += 1; }
            for n in &names { if !got.contains_key(n) { rep.violate(format!("get_locales({}) lacks {}", ty, n), json!(["locales", ty, n])); } }
            for (n, k) in &got {
                if !names.contains(n) { rep.violate(format!("get_locales({}) lists {}, which is not in CLDR 37", ty, n), json!(["locales", ty, n])); }
                if *k != 1 { rep.violate(format!("get_locales({}) lists {} {} times", ty, n, k), json!(["locales", ty, n])); }
            }
            for n in &names {
                let id: LanguageIdentifier = n.parse().unwrap();
                if !list.contains(&id) { rep.violate(format!("get_locales({}) has no entry equal to the identifier {}", ty, n), json!(["locales", ty, n])); }
            }
        }
        // identifiers
        let mut ids: Vec<String> = Vec::new();
        let mut r = Rng::new(env.seed, &format!("C03/{}", ty));
        for a in b'a'..=b'z' { for b in b'a'..=b'z' {
            ids.push(format!("{}{}", a as char, b as char));
            for c in b'a'..=b'z' { ids.push(format!("{}{}{}", a as char, b as char, c as char)); }
        } }
        let known_names: Vec<String> = cl.cardinal.iter().chain(&cl.ordinal).map(|l| l.name.clone()).collect();
        for n in &known_names {
            ids.push(n.clone());
            ids.push(n.to_uppercase());
            ids.push(n.replace('-', "_"));
            ids.push(n.to_uppercase().replace('-', "_").to_lowercase());
            let lang = n.split('-').next().unwrap();
            for suf in ["US", "PT", "BR", "DE", "001", "419", "Latn", "Cyrl", "Hant", "Latn-US", "Cyrl-PT", "valencia", "PT-valencia", "Latn-PT-valencia", "1994", "fonipa-valencia"] {
                ids.push(format!("{}-{}", lang, suf));
                ids.push(format!("{}-{}", n, suf));
            }
        }
        for s in ["und", "und-US", "und-Latn", "und-PT", "und-Latn-PT", "root", "en-US-posix", "i-default"] { ids.push(s.into()); }
        for t in &crate::dict::dict().texts { ids.push(t.clone()); ids.push(t.to_uppercase()); for n in ["US", "Latn", "PT"] { ids.push(format!("{}-{}", t, n)); } }
        // subtags named in the sources or registered, behind every known language
        let mut subs: BTreeSet<String> = "1606nict 1694acad 1901 1996 abl1943 alalc97 arevela arevmda baku1926 balanka barla biscayan boont fonipa fonupa fonxsamp heploc hepburn jyutping kkcor luna1918 metelko monoton nedis njiva nulik oxendict pamaka petr1708 pinyin polyton posix rozaj scotland scouse simple solba sotav spanglis tarask uccor ulster unifon valencia wadegile xsistemo Arab Aran Armn Beng Bopo Cyrl Cyrs Deva Dsrt Ethi Geor Grek Guru Hang Hani Hans Hant Hebr Hira Jpan Kana Khmr Kore Laoo Latf Latg Latn Mong Mymr Shaw Sinh Taml Telu Tfng Thai Tibt Zinh Zmth Zsye Zsym Zxxx Zyyy Zzzz".split(' ').map(|s| s.to_string()).collect();
        for t in &crate::dict::dict().texts { for w in t.split(|c: char| !c.is_ascii_alphanumeric()) { if (2..9).contains(&w.len()) { subs.insert(w.to_string()); } } }
        let langs: BTreeSet<&str> = known_names.iter().map(|n| n.split('-').next().unwrap()).collect();
        for l in langs.iter().copied().chain(["und", "xx"]) {
            for s in &subs { ids.push(format!("{}-{}", l, s)); if l.len() == 2 { for m in ["US", "Latn", "Latn-US", "PT"] { ids.push(format!("{}-{}-{}", l, m, s)); } } }
            if l.len() == 2 || l.as_bytes()[0] == b's' { for a in b'A'..=b'Z' { for b in b'A'..=b'Z' { ids.push(format!("{}-{}{}", l, a as char, b as char)); } } }
        }
        for k in 0..1000 { for l in ["en", "es", "pt", "sr", "zh", "ar"] { ids.push(format!("{}-{:03}", l, k)); } }
        for _ in 0..env.scale(500_000, 5_000_000) {
            let n = *r.pick(&[2usize, 3, 3, 5, 6, 7, 8]);
            let mut s: String = (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect();
            if r.chance(1, 3) { s = r.pick(&known_names).clone(); }
            if r.chance(1, 4) { let x: String = (0..4).map(|_| (b'a' + r.below(26) as u8) as char).collect(); s = format!("{}-{}", s, x); }
            if r.chance(1, 3) { let x: String = (0..2).map(|_| (b'A' + r.below(26) as u8) as char).collect(); s = format!("{}-{}", s, x); }
            if r.chance(1, 8) { let x: String = (0..5 + r.below(4)).map(|_| (b'a' + r.below(26) as u8) as char).collect(); s = format!("{}-{}", s, x); }
            ids.push(s);
        }
        let (mut okc, mut errc) = (0u64, 0u64);
        for s in &ids {
            let id: LanguageIdentifier = match s.parse() { Ok(i) => i, Err(_) => continue };
            let canon = id.to_string();
            let want = names.contains(&canon);
            rep.evaluations += 1;
            distinct.add(&(ty, canon.clone()));
            let case = json!(["create", ty, s]);
            match watched(AssertUnwindSafe(|| PluralRules::create(id.clone(), rule_type(ty)))) {
                Err(e) => rep.violate(format!("create({}, {}) panics: {}", s, ty, panic_text(e)), case),
                Ok(Ok(p)) => {
                    okc += 1;
                    if !want { rep.violate(format!("create({}, {}) succeeds, but CLDR 37 has no such locale", s, ty), case.clone()); }
                    let q = p.clone();
                    for x in [&p, &q, &q.clone()] {
                        let got = x.get_locale();
                        if *got != id || got.to_string() != canon { rep.violate(format!("create({}, {}) reports locale {}", s, ty, got), case.clone()); }
                    }
                    drop(p);
                    if q.get_locale().to_string() != canon { rep.violate(format!("clone of {} reports {} after the original is gone", s, q.get_locale()), case); }
                }
                Ok(Err(_)) => {
                    errc += 1;
                    if want { rep.violate(format!("create({}, {}) fails, but CLDR 37 has this locale", s, ty), case); }
                }
            }
        }
        // the instance carries the rules of its own locale and type: fingerprint on numbers where no finding applies
        let mut r = Rng::new(env.seed, "C03/fp");
        let mut nums_: Vec<Dec> = (0..120).map(Dec::int).collect();
        nums_.extend((0..400).map(|_| nums::random_dec(&mut r)));
        for i in 0..12 { for f in ["0", "1", "5", "00", "10"] { nums_.push(Dec::new(i, f)); } }
        let mut fps = BTreeSet::new();
        for l in locs {
            let pr = match create(&l.name, rule_type(ty)) { Ok(p) => p, Err(_) => continue };
            let mut fp = String::new();
            for d in &nums_ {
                let x = d.ops().unwrap();
                let want = l.spec(&x);
                if l.with_quirks(&x, &|_, _| true) != want { fp.push('?'); continue; }
                rep.evaluations += 1;
                let got = select(&pr, d.text().as_str());
                fp.push_str(CATS[want as usize]);
                if got != Out::Cat(want) { rep.violate(format!("{} {} does not carry its own rules: {} -> {}, CLDR says {}", ty, l.name, d.text(), show(&got), CATS[want as usize]), select_case(ty, &l.name, C::Str, d)); break; }
            }
            fps.insert(fp);
        }
        rep.put(&format!("{}_identifiers_found", ty), json!(okc));
        rep.put(&format!("{}_identifiers_refused", ty), json!(errc));
        rep.put(&format!("{}_distinct_rule_fingerprints", ty), json!(fps.len()));
        rep.sample(json!(format!("{}: create({}) -> found={}", ty, ids[ids.len() - 1], names.contains(&ids[ids.len() - 1]))));
        if okc == 0 || errc == 0 { rep.inconclusive.push("found or refused identifiers missing".into()); }
    }
    rep.distinct = distinct.len();
    rep.rule = "create() per (rule type, identifier): all 2- and 3-letter languages, every CLDR locale in several spellings and with foreign regions, scripts and variants, random identifiers; get_locales compared with the CLDR locale set; distinct counts (type, canonical identifier)".into();
    rep.finish(env)
}

// ---------------------------------------------------------------- C04

fn ops_eq(a: &Ops, b: &Ops) -> bool {
    a.n.to_bits() == b.n.to_bits() && a.i == b.i && a.v == b.v && a.w == b.w && a.f == b.f && a.t == b.t
}
pub fn text_ops_check(rep: &mut Report, text: &str, want: &Ops) {
    for owned in [false, true] {
        let got = if owned { ops_of(text.to_string()) } else { ops_of(text) };
        rep.evaluations += 1;
        match got {
            OpsOut::Ok(g) if ops_eq(&g, want) => {}
            g => rep.violate(format!("{} {:?}: got {:?}, UTS 35 defines {:?}", if owned { "String" } else { "&str" }, clip(text), g, want), json!(["ops", text])),
        }
    }
}
pub fn clip(s: &str) -> String { if s.chars().count() > 90 { format!("{}...({} chars)", s.chars().take(80).collect::<String>(), s.chars().count()) } else { s.into() } }

pub fn c04(env: &Env) -> ! {
    let mut rep = Report::new(env, "C04");
    let mut distinct = Distinct::default();
    let mut r = Rng::new(env.seed, "C04");
    let mut texts: Vec<Dec> = Vec::new();
    for i in 0..env.scale(60_000, 2_000_000) { texts.push(Dec::int(i)); }
    for b in nums::boundary_ints() { for f in ["", "0", "00", "5", "50", "0000000000000000000", "18446744073709551615", "00000000000000000001"] { texts.push(Dec::new(b, f)); } }
    for f in 0..env.scale(30_000, 300_000) {
        let s = f.to_string();
        for pad in [0usize, 1, 2, 5, 17, 40] { for tr in [0usize, 1, 3] {
            let fr = format!("{}{}{}", "0".repeat(pad), s, "0".repeat(tr));
            texts.push(Dec::new(f % 7, &fr));
        } }
    }
    for z in 1..400usize { texts.push(Dec::new(z as u64, &"0".repeat(z))); texts.push(Dec::new(1, &format!("{}7", "0".repeat(z)))); }
    texts.extend(nums::from_dict(&mut r, env.scale(6, 30) as usize));
    for _ in 0..env.scale(3_000_000, 30_000_000) {
        let nf = r.below(20) as usize;
        let mut frac: String = (0..nf).map(|_| (b'0' + r.below(10) as u8) as char).collect();
        if r.chance(1, 3) { frac.push_str(&"0".repeat(r.below(6) as usize)); }
        if r.chance(1, 3) { frac.insert_str(0, &"0".repeat(r.below(12) as usize)); }
        texts.push(Dec::new(r.mag(), &frac));
        if texts.len() > 400_000 { check_texts(&mut rep, &mut texts, &mut r, &mut distinct); }
    }
    check_texts(&mut rep, &mut texts, &mut r, &mut distinct);
    rep.distinct = distinct.len();
    rep.rule = "conversion of &str and String of decimal texts against digit-string arithmetic; each number also with a minus sign and with leading zeros; distinct counts distinct texts; all have an exact expected operand tuple".into();
    rep.assumptions.push("n: correct rounding of the standard library's float parser on the canonical text".into());
    rep.finish(env)
}
/// Mostly few, sometimes as many as a constant of the sources suggests.
fn zeros(r: &mut Rng) -> usize {
    match r.below(12) { 0 => { let x = *r.pick(&crate::dict::dict().ints); (if x <= 5000 { x as usize + r.below(3) as usize } else { 7 }).max(1) } 1 => 1 + r.below(300) as usize, 2..=4 => 1 + r.below(40) as usize, _ => 1 + r.below(4) as usize }
}
fn check_texts(rep: &mut Report, texts: &mut Vec<Dec>, r: &mut Rng, distinct: &mut Distinct) {
    let batch: Vec<Dec> = std::mem::take(texts);
    for d in batch {
        let Some(want) = d.ops() else { continue };
        let t = d.text();
        let form = match r.below(8) { 0 | 1 => format!("-{}", t), 2 => format!("{}{}", "0".repeat(zeros(r)), t), 3 => format!("-{}{}", "0".repeat(zeros(r)), t), _ => t };
        if distinct.add(&form) { text_ops_check(rep, &form, &want); if rep.evaluations % 99_999 < 2 { rep.sample(json!(format!("{} -> {:?}", clip(&form), want))); } }
    }
}

// ---------------------------------------------------------------- C05

/// The decimal text of a positive finite float, built from the digits of its shortest form.
fn float_dec(e: &str) -> Dec {
    let (m, x) = e.split_once('e').unwrap();
    let x: i32 = x.parse().unwrap();
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{}{}", a, b);
    let point = a.len() as i32 + x;
    let (int, frac) = if point <= 0 { ("0".to_string(), format!("{}{}", "0".repeat((-point) as usize), digits)) }
        else if point as usize >= digits.len() { (format!("{}{}", digits, "0".repeat(point as usize - digits.len())), String::new()) }
        else { (digits[..point as usize].to_string(), digits[point as usize..].to_string()) };
    let frac = if frac.bytes().all(|c| c == b'0') { String::new() } else { frac };
    let int = int.trim_start_matches('0');
    Dec { int: if int.is_empty() { "0".into() } else { int.into() }, frac }
}
fn num_check(rep: &mut Report, n: Num, want: Option<Ops>, may_refuse: bool) {
    rep.evaluations += 1;
    let got = n.ops();
    let ok = match (&got, &want) {
        (OpsOut::Ok(g), Some(w)) => ops_eq(g, w),
        (OpsOut::Err, None) => true,
        (OpsOut::Err, Some(_)) => may_refuse,
        _ => false,
    };
    if !ok {
        rep.violate(format!("{:?}: got {:?}, expected {}", n, got, want.map(|w| format!("{:?}", w)).unwrap_or("an error".into())), json!(["num", format!("{:?}", n)]));
    }
}
fn int_ops(a: u64) -> Ops { Ops { n: a as f64, i: a, v: 0, w: 0, f: 0, t: 0 } }
fn f64_want(x: f64) -> Option<Ops> {
    if !x.is_finite() { return None; }
    let d = float_dec(&format!("{:e}", x.abs()));
    d.ops()
}
fn f32_want(x: f32) -> Option<Ops> {
    if !x.is_finite() { return None; }
    let d = float_dec(&format!("{:e}", x.abs()));
    d.ops()
}
pub fn c05(env: &Env) -> ! {
    let mut rep = Report::new(env, "C05");
    let mut distinct = Distinct::default();
    let mut r = Rng::new(env.seed, "C05");
    for x in u8::MIN..=u8::MAX { num_check(&mut rep, Num::U8(x), Some(int_ops(x as u64)), false); }
    for x in i8::MIN..=i8::MAX { num_check(&mut rep, Num::I8(x), Some(int_ops(x.unsigned_abs() as u64)), false); }
    for x in u16::MIN..=u16::MAX { num_check(&mut rep, Num::U16(x), Some(int_ops(x as u64)), false); }
    for x in i16::MIN..=i16::MAX { num_check(&mut rep, Num::I16(x), Some(int_ops(x.unsigned_abs() as u64)), false); }
    let mut wide: Vec<u64> = nums::boundary_ints();
    wide.extend(0..70_000u64);
    for d in nums::from_dict(&mut r, 4) { if let (true, Some(x)) = (d.frac.is_empty(), digits_u64(&d.int)) { wide.push(x); } }
    for _ in 0..env.scale(1_500_000, 10_000_000) { wide.push(r.mag()); }
    for x in &wide {
        let x = *x;
        distinct.add(&("i", x));
        num_check(&mut rep, Num::U32(x as u32), Some(int_ops(x as u32 as u64)), false);
        num_check(&mut rep, Num::I32(x as i32), Some(int_ops((x as i32).unsigned_abs() as u64)), false);
        num_check(&mut rep, Num::I32((x as i32).wrapping_neg()), Some(int_ops((x as i32).unsigned_abs() as u64)), false);
        num_check(&mut rep, Num::U64(x), Some(int_ops(x)), false);
        num_check(&mut rep, Num::Usize(x as usize), Some(int_ops(x)), false);
        for y in [x as i64, (x as i64).wrapping_neg()] {
            num_check(&mut rep, Num::I64(y), Some(int_ops(y.unsigned_abs())), y == i64::MIN);
            num_check(&mut rep, Num::Isize(y as isize), Some(int_ops(y.unsigned_abs())), y == i64::MIN);
        }
    }
    for y in [i32::MIN, i32::MAX, i32::MIN + 1] { num_check(&mut rep, Num::I32(y), Some(int_ops(y.unsigned_abs() as u64)), false); }
    // floats
    let mut fl: Vec<f64> = vec![0.0, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, f64::MAX, f64::INFINITY, f64::NAN, 18446744073709551615.0, 18446744073709549568.0, 18446744073709551616.0, 1e19, 1e20, 1e22, 1e300, 9007199254740993.0, 0.1, 0.2, 0.3, 0.1 + 0.2, 1e-5, 1e-7, 1e-20, 2.813829837982735];
    for k in 0..=1080 { fl.push(2f64.powi(k - 540)); }
    for k in -323..=308 { fl.push(format!("1e{}", k).parse().unwrap()); fl.push(format!("1.2345678901234567e{}", k).parse().unwrap()); }
    for i in 0..3000u64 { for (q, s) in [(1.0, 0.0), (10.0, 0.0), (100.0, 0.0), (1000.0, 0.5)] { fl.push((i as f64 + s) / q); } }
    for b in nums::boundary_ints() { fl.push(b as f64); }
    for d in nums::from_dict(&mut r, 4) { if let Ok(x) = d.text().parse::<f64>() { fl.push(x); } }
    let nf = env.scale(2_000_000, 20_000_000);
    for k in 0..nf {
        fl.push(match k % 4 { 0 => f64::from_bits(r.next()), 1 => nums::random_dec(&mut r).text().parse().unwrap(), 2 => (r.mag() as f64) / 10f64.powi(r.below(12) as i32), _ => f64::from_bits(((1000 + r.below(90)) << 52) | (r.next() >> 12)) });
        if fl.len() > 200_000 || k + 1 == nf {
            for x in std::mem::take(&mut fl) {
                if !distinct.add(&("d", x.to_bits())) { continue; }
                for y in [x, -x] { num_check(&mut rep, Num::F64(y), f64_want(y), false); }
                let z = x as f32;
                num_check(&mut rep, Num::F32(z), f32_want(z), false);
                if rep.evaluations % 400_001 < 3 { rep.sample(json!(format!("f64 {:e} -> {:?}", x, f64_want(x)))); }
            }
        }
    }
    // f32: a stride through all bit patterns (all of them when thorough)
    let stride = env.scale(521, 17);
    let chunks: Vec<u64> = (0..64).collect();
    let seed_off = r.below(stride);
    let outs = par(&chunks, |_, c| {
        let mut sub = Report::new(env, "C05");
        let mut b = c * (1u64 << 26) + seed_off;
        while b < (c + 1) * (1u64 << 26) {
            let x = f32::from_bits(b as u32);
            num_check(&mut sub, Num::F32(x), f32_want(x), false);
            b += stride;
        }
        (sub.evaluations, sub.violations, sub.total_violations)
    });
    let mut f32s = 0;
    for (e, v, n) in outs { rep.evaluations += e; f32s += e; rep.total_violations += n; if rep.violations.len() < 20 { rep.violations.extend(v); } }
    rep.put("f32_bit_patterns", json!(f32s));
    rep.put("exhaustive_types", json!(["u8", "i8", "u16", "i16"]));
    rep.distinct = distinct.len() + f32s;
    rep.rule = "conversion of native values; integers against exact absolute value, floats against the decimal expansion of their shortest scientific form; distinct counts distinct integer values, f64 and f32 bit patterns".into();
    rep.assumptions.push("shortest float digits as printed by the standard library's {:e}".into());
    rep.finish(env)
}

// ---------------------------------------------------------------- C06

#[derive(Debug, PartialEq)]
pub enum Shape { Plain(Dec), NumberLike, Not }
/// Independent recogniser of number texts.
pub fn shape(s: &str) -> Shape {
    let body = s.strip_prefix('-').unwrap_or(s);
    if let Some(d) = Dec::parse(body) { return Shape::Plain(d); }
    let b = s.as_bytes();
    let mut p = 0;
    if p < b.len() && (b[p] == b'-' || b[p] == b'+') { p += 1; }
    let a = p;
    while p < b.len() && b[p].is_ascii_digit() { p += 1; }
    if p == a { return Shape::Not; }
    if p < b.len() && b[p] == b'.' {
        p += 1;
        let a = p;
        while p < b.len() && b[p].is_ascii_digit() { p += 1; }
        if p == a { return Shape::Not; }
    }
    if p < b.len() && (b[p] == b'e' || b[p] == b'E') {
        p += 1;
        if p < b.len() && (b[p] == b'-' || b[p] == b'+') { p += 1; }
        let a = p;
        while p < b.len() && b[p].is_ascii_digit() { p += 1; }
        if p == a { return Shape::Not; }
    }
    if p == b.len() { Shape::NumberLike } else { Shape::Not }
}
/// Do these operands describe one number?
pub fn consistent(o: &Ops) -> Result<(), String> {
    if !(o.n.is_finite() && o.n >= 0.0) { return Err("n is negative or not finite".into()); }
    if o.w > o.v { return Err("w > v".into()); }
    let pad = o.v - o.w;
    let mut f = o.t as u128;
    for _ in 0..pad.min(40) { f *= 10; if f > u64::MAX as u128 { break; } }
    if o.t != 0 && f != o.f as u128 || o.t == 0 && o.f != 0 { return Err("f is not t * 10^(v-w)".into()); }
    if o.t == 0 && o.w != 0 || o.t != 0 && o.t % 10 == 0 { return Err("t ends in 0 or w counts no digits".into()); }
    if o.f.to_string().len() > o.v && o.f != 0 { return Err("f >= 10^v".into()); }
    let text = if o.v == 0 { o.i.to_string() } else { { let f = if o.f == 0 { String::new() } else { o.f.to_string() }; format!("{}.{}{}", o.i, "0".repeat(o.v - f.len()), f) } };
    let n: f64 = text.parse().unwrap();
    if n.to_bits() != o.n.to_bits() && n != o.n { return Err(format!("n is not i + f/10^v ({} against {})", o.n, n)); }
    Ok(())
}
pub fn any_text_check(rep: &mut Report, pr: &[PluralRules], s: &str) -> &'static str {
    rep.evaluations += 1;
    let a = ops_of(s);
    let b = ops_of(s.to_string());
    let sel: Vec<Out> = pr.iter().map(|p| select(p, s)).collect();
    let case = json!(["text", s]);
    let sh = shape(s);
    if a != b { rep.violate(format!("{:?}: &str gives {:?}, String gives {:?}", clip(s), a, b), case.clone()); }
    for (k, o) in sel.iter().enumerate() {
        let agree = match (&a, o) { (OpsOut::Ok(_), Out::Cat(_)) | (OpsOut::Err, Out::Err) => true, _ => false };
        if !agree { rep.violate(format!("{:?}: conversion gives {:?}, selection in locale #{} gives {}", clip(s), a, k, show(o)), case.clone()); }
    }
    match &a {
        OpsOut::Panic(m) => { rep.violate(format!("{:?}: panic: {}", clip(s), m), case); "panic" }
        OpsOut::Ok(o) => {
            match &sh {
                Shape::Not => rep.violate(format!("{:?} is not a number, but got operands {:?}", clip(s), o), case.clone()),
                Shape::Plain(d) => match d.ops() {
                    None => rep.violate(format!("{:?} does not fit the operands, but got {:?}", clip(s), o), case.clone()),
                    Some(w) => if !ops_eq(o, &w) { rep.violate(format!("{:?}: got {:?}, expected {:?}", clip(s), o, w), case.clone()) },
                },
                Shape::NumberLike => {
                    let n: f64 = s.parse::<f64>().map(|x| x.abs()).unwrap_or(f64::NAN);
                    if n != o.n { rep.violate(format!("{:?}: n = {}, but the value is {}", clip(s), o.n, n), case.clone()); }
                }
            }
            if let Err(e) = consistent(o) { rep.violate(format!("{:?}: inconsistent operands {:?}: {}", clip(s), o, e), case); }
            "ok"
        }
        OpsOut::Err => {
            if let Shape::Plain(d) = &sh { if d.ops().is_some() { rep.violate(format!("{:?} is a number, but was refused", clip(s)), case); } }
            "err"
        }
    }
}
pub const HOSTILE: &[char] = &['0', '1', '5', '9', '-', '+', '.', 'e', 'E', ' ', ',', '_', 'n', 'a', 'i', 'f', 't', 'y', 'N', 'I', 'x', '\0', '\n', '\t', '٣', '৩', '１', '－', '−', '∞', '½', '²', 'é', '😀', '\u{feff}', '\u{301}', '٫', '%', '\'', '~'];
pub fn hostile_string(r: &mut Rng) -> String {
    let base: String = match r.below(6) {
        0 => String::new(),
        1 => nums::random_dec(r).text(),
        2 => format!("-{}", nums::random_dec(r).text()),
        3 => { let k = 1 + r.below(8); (0..k).map(|_| *r.pick(HOSTILE)).collect() }
        4 => r.pick(&["nan", "NaN", "inf", "-inf", "infinity", "Infinity", "+inf", "1e5", "1.5e3", "15e-1", "1E400", "0x10", "1_000", "1,000", "½", "one", "--5", "-+5", "+-5", "++5", "- 5", "5-", "1..2", "1.2.3", ".", "-", "+", "-.", ".5", "5.", "-.5", "-5.", "0e0", "1e-400", "00", "-0", "-0.0", "1.", "e5", "1e", "1e+", "1e1.5", "1f", "1u8", "0b1", "NAN", "-nan", "1.nan", "1.inf", "inf.5", "5.-3", "5.+3", "-5.-3", "1 2", "1\n", "\u{0}5", "5\u{0}"]).to_string(),
        _ => { let k = 1 + r.below(30); (0..k).map(|_| char::from_u32(r.below(0x11000) as u32).unwrap_or('?')).collect() }
    };
    let mut v: Vec<char> = base.chars().collect();
    for _ in 0..r.below(4) {
        let p = r.below(v.len() as u64 + 1) as usize;
        match r.below(3) { 0 => v.insert(p, *r.pick(HOSTILE)), 1 => { if p < v.len() { v[p] = *r.pick(HOSTILE); } } _ => { if p < v.len() { v.remove(p); } } }
    }
    v.into_iter().collect()
}
pub fn hang_exit(prop: &'static str, env_root: String, tier: String, seed: u64) -> impl Fn(&str) + Send + 'static {
    move |t: &str| {
        let dir = format!("{}/work/replay", env_root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-hang.json", dir, prop);
        let _ = std::fs::write(&path, json!({"property": prop, "tier": tier, "seed": seed, "cases": [{"summary": "does not terminate", "case": ["text", t]}]}).to_string());
        println!("  one call used more than 60 s of CPU time on input {:?}", clip(t));
        println!("VIOLATION property={} replay={}", prop, path);
        let ev = json!({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "a call that did not terminate ended the run", "samples": [t]}, "wall_s": 60.0, "violations": 1});
        let _ = std::fs::write(format!("{}/evidence/{}.json", env_root, prop), ev.to_string());
        std::process::exit(1);
    }
}
pub fn c06(env: &Env) -> ! {
    let mut rep = Report::new(env, "C06");
    let watch = Watch::default();
    watch.start(60, hang_exit("C06", env.root.clone(), env.tier.clone(), env.seed));
    let prs: Vec<(&str, &str)> = vec![("en", "cardinal"), ("ar", "cardinal"), ("uk", "ordinal"), ("pt-PT", "cardinal")];
    // exhaustive: all strings up to a length over a small hostile alphabet
    let alpha: Vec<char> = "015-+.e nai".chars().collect();
    let maxlen = env.scale(7, 7) as u32;
    let heads: Vec<usize> = (0..alpha.len()).collect();
    let outs = par(&heads, |_, h| {
        let slot = watch.slot();
        let pr: Vec<PluralRules> = prs.iter().filter_map(|(l, t)| create(l, rule_type(t)).ok()).collect();
        let mut sub = Report::new(env, "C06");
        let mut cnt: BTreeMap<&'static str, u64> = BTreeMap::new();
        for len in 1..=maxlen {
            let total = (alpha.len() as u64).pow(len - 1);
            let mut s = String::new();
            for k in 0..total {
                s.clear();
                s.push(alpha[*h]);
                let mut x = k;
                for _ in 1..len { s.push(alpha[(x % alpha.len() as u64) as usize]); x /= alpha.len() as u64; }
                slot.begin(&s);
                *cnt.entry(any_text_check(&mut sub, &pr[..2.min(pr.len())], &s)).or_insert(0) += 1;
            }
        }
        slot.end();
        (sub.evaluations, sub.violations, sub.total_violations, cnt)
    });
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut exhaustive = 0;
    for (e, v, n, c) in outs { rep.evaluations += e; exhaustive += e; rep.total_violations += n; if rep.violations.len() < 20 { rep.violations.extend(v); } for (k, x) in c { *counts.entry(k).or_insert(0) += x; } }
    // random and long hostile strings
    let slot = watch.slot();
    let pr: Vec<PluralRules> = prs.iter().filter_map(|(l, t)| create(l, rule_type(t)).ok()).collect();
    if pr.len() != prs.len() { rep.inconclusive.push("probe locales missing".into()); }
    let mut r = Rng::new(env.seed, "C06");
    let mut distinct = Distinct::default();
    let mut long: Vec<String> = vec![String::new()];
    for n in [19usize, 20, 21, 39, 40, 64, 100, 309, 310, 400, 1000, 70_000, 1_000_000] {
        for pat in ["9", "1", "0", "-", "+", ".", "e", " ", "1.", "é", "😀", "n"] {
            long.push(pat.repeat(n));
            long.push(format!("-{}", pat.repeat(n)));
            long.push(format!("1.{}", pat.repeat(n)));
            long.push(format!("0.{}1", pat.repeat(n)));
            long.push(format!("1{}", pat.repeat(n)));
            long.push(format!("{}1.5", pat.repeat(n)));
        }
    }
    for t in &crate::dict::dict().texts { for p in ["{}", "-{}", "+{}", "1{}", "{}1", "1.{}", "1{}5", "1 {}", "0.{}1", "-1{}", "1e{}"] { long.push(p.replace("{}", t)); } }
    for c in &crate::dict::dict().chars { for p in ["{}", "-{}", "+{}", "1{}", "{}1", "1.{}", "1{}5", "0.{}1", "-1{}", "1{}0", "1.5{}", "{}{}1", "1{}{}5"] { long.push(p.replace("{}", &c.to_string())); } }
    for n in crate::dict::dict().ints.iter().filter(|n| **n <= 5000) { for pat in ["9", "0", "1."] { let n = *n as usize; long.push(pat.repeat(n)); long.push(pat.repeat(n + 1)); long.push(format!("0.{}7", pat.repeat(n))); } }
    // every character where a separator, sign, digit or point could be taken for granted
    let planes: Vec<u32> = (0..0x20000u32 / 0x400).collect();
    let outs = par(&planes, |_, p| {
        let slot = watch.slot();
        let pr: Vec<PluralRules> = prs.iter().take(1).filter_map(|(l, t)| create(l, rule_type(t)).ok()).collect();
        let mut sub = Report::new(env, "C06");
        let mut cnt: BTreeMap<&'static str, u64> = BTreeMap::new();
        for c in (p * 0x400..(p + 1) * 0x400).filter_map(char::from_u32) {
            for f in ["{}", "{}5", "5{}", "1{}5", "1{}000{}000", "1{}000.5", "-{}5", "1.{}5", "1.5{}", "1{}{}5", "12{}34{}567", "{}{}7", "1.000{}000"] {
                let s = f.replace("{}", c.encode_utf8(&mut [0; 4]));
                slot.begin(&s);
                *cnt.entry(any_text_check(&mut sub, &pr, &s)).or_insert(0) += 1;
            }
        }
        slot.end();
        (sub.evaluations, sub.violations, sub.total_violations, cnt)
    });
    let mut characters = 0;
    for (e, v, n, c) in outs { rep.evaluations += e; characters += e; rep.total_violations += n; if rep.violations.len() < 20 { rep.violations.extend(v); } for (k, x) in c { *counts.entry(k).or_insert(0) += x; } }
    rep.put("texts_with_every_character_up_to_U_1FFFF", json!(characters));
    let nr = env.scale(4_000_000, 20_000_000);
    for k in 0..nr + long.len() as u64 {
        let s = if (k as usize) < long.len() { long[k as usize].clone() } else { hostile_string(&mut r) };
        if !distinct.add(&s) { continue; }
        slot.begin(&s);
        *counts.entry(any_text_check(&mut rep, &pr, &s)).or_insert(0) += 1;
        if k % 90_001 == 5 { rep.sample(json!(s)); }
    }
    rep.put("outcomes", json!(counts));
    rep.put("exhaustive_strings", json!(exhaustive));
    rep.put("exhaustive_alphabet", json!(format!("{:?} up to length {}", alpha.iter().collect::<String>(), maxlen)));
    rep.distinct = distinct.len() + exhaustive;
    if !counts.contains_key("err") || !counts.contains_key("ok") { rep.inconclusive.push("accepted or refused texts missing".into()); }
    rep.rule = "one text per evaluation, through &str, String and select() in several locales; all strings over a hostile alphabet up to a length, mutated numbers, random Unicode, long strings; judged by an independent recogniser and by self-consistency of the operands; a call that exceeds 60 s of its thread's CPU time counts as not terminating".into();
    rep.finish(env)
}

// ---------------------------------------------------------------- C07

pub fn c07(env: &Env) -> ! {
    let mut rep = Report::new(env, "C07");
    let cl = cldr::load(&env.root);
    let mut jobs: Vec<(&'static str, &Locale)> = Vec::new();
    for l in &cl.cardinal { jobs.push(("cardinal", l)); }
    for l in &cl.ordinal { jobs.push(("ordinal", l)); }
    let mut fixed: Vec<Dec> = (0..=300).map(Dec::int).collect();
    for b in nums::boundary_ints() { if b % 3 == 0 || b.is_power_of_two() { fixed.push(Dec::int(b)); } }
    for i in 0..=24u64 { for f in nums::FRACS { fixed.push(Dec::new(i, f)); } }
    fixed.extend(nums::from_dict(&mut Rng::new(env.seed, "C07/dict"), 2));
    let outs = par(&jobs, |_, (ty, l)| {
        let mut sub = Report::new(env, "C07");
        let pr = match create(&l.name, rule_type(ty)) { Ok(p) => p, Err(e) => { sub.violate(format!("{} {}: {}", ty, l.name, e), json!(["create", ty, l.name])); return (sub, 0, BTreeSet::new()); } };
        let cl1 = pr.clone();
        let mut r = Rng::new(env.seed, &format!("C07/{}/{}", ty, l.name));
        let mut nums_ = fixed.clone();
        nums_.extend(numbers_for(l, &mut r, 6, env.scale(3000, 15_000) as usize, env.scale(6000, 30_000) as usize));
        nums_.sort();
        nums_.dedup();
        let mut used = BTreeSet::new();
        for (k, d) in nums_.iter().enumerate() {
            let base = carry(d, C::Str).unwrap().select(&pr);
            for c in ALL {
                if c == C::Str { continue; }
                let Some(n) = carry(d, c) else { continue };
                let p = if k % 2 == 0 { &pr } else { &cl1 };
                let got = n.select(p);
                sub.evaluations += 1;
                used.insert(format!("{:?}", c));
                if got != base || !matches!(base, Out::Cat(_)) { sub.violate(format!("{} {}: {} as text -> {}, as {:?} -> {}", ty, l.name, d.text(), show(&base), n, show(&got)), select_case(ty, &l.name, c, d)); }
            }
        }
        // operands supplied by the caller are used as they are
        // (a range or modulus of n may be evaluated through i and f, so nothing is said about n there)
        let hidden_n = l.relations().iter().any(|r| r.opnd == Opnd::N && (r.modulus.is_some() || r.list.iter().any(|x| matches!(x, Item::Range(..)))));
        for k in 0..env.scale(4000, 20_000) {
            let pick = |r: &mut Rng| if r.chance(2, 3) { r.below(25) } else if r.chance(1, 2) { r.below(2000) } else { r.mag() };
            let mut o = Ops { i: pick(&mut r), v: pick(&mut r) as usize, w: pick(&mut r) as usize, f: pick(&mut r), t: pick(&mut r), n: 0.0 };
            if r.chance(1, 3) { o.v = 0; }
            if r.chance(1, 3) { o.w = 0; }
            if r.chance(1, 4) { o.f = 0; }
            if r.chance(1, 4) { o.t = 0; }
            if r.chance(1, 3) { o.i = r.below(3); }
            let o = Ops { n: if r.chance(1, 2) { o.i as f64 } else { pick(&mut r) as f64 + [0.0, 0.5, 0.25][(k % 3) as usize] }, ..o };
            let o = if r.chance(1, 8) { Ops { n: match r.below(6) { 0 => -o.n, 1 => f64::NAN, 2 => f64::INFINITY, 3 => f64::NEG_INFINITY, 4 => -0.0, _ => -(o.i as f64) }, ..o } } else { o };
            let a = select(&pr, po(&o));
            let b = select(&cl1, Mine(Ok(po(&o))));
            sub.evaluations += 2;
            let case = json!(["operands", ty, l.name, format!("{:?}", o)]);
            if a != b || !matches!(a, Out::Cat(_)) { sub.violate(format!("{} {}: {:?} as operands -> {}, through a caller's type -> {}", ty, l.name, o, show(&a), show(&b)), case.clone()); }
            if !hidden_n {
                let m: Vec<u8> = l.rules.iter().filter(|(_, c)| eval_literal(c, &o)).map(|(k, _)| *k).collect();
                let ok = match &a { Out::Cat(c) => m.contains(c) || m.is_empty() && *c == OTHER, _ => false };
                if !ok { sub.violate(format!("{} {}: operands {:?} -> {}, the rule on exactly these operands gives {:?}", ty, l.name, o, show(&a), m.iter().map(|c| CATS[*c as usize]).collect::<Vec<_>>()), case); }
            }
        }
        if select(&pr, Mine(Err("no".into()))) != Out::Err { sub.violate(format!("{} {}: a caller's conversion error is not reported", ty, l.name), json!(["operands", ty, l.name, "Err"])); }
        (sub, nums_.len() as u64, used)
    });
    let mut used = BTreeSet::new();
    for (k, (s, n, u)) in outs.into_iter().enumerate() {
        rep.evaluations += s.evaluations;
        rep.total_violations += s.total_violations;
        if rep.violations.len() < 20 { rep.violations.extend(s.violations); }
        rep.distinct += n;
        used.extend(u);
        if k % 40 == 7 { rep.sample(json!(format!("{} {}: {} numbers through every carrier that can hold them", jobs[k].0, jobs[k].1.name, n))); }
    }
    if used.len() < ALL.len() - 1 { rep.inconclusive.push(format!("carriers used: {:?}", used)); }
    rep.put("carriers", json!(used));
    rep.rule = "per (rule type, locale, number): the result through every carrier that can hold the number with the same visible digits must equal the result of the plain text; plus arbitrary operand tuples through the ready-made struct and a caller's type; distinct counts (type, locale, number)".into();
    rep.finish(env)
}

// ---------------------------------------------------------------- C19

/// Operand values a caller may put together, consistent or not.
fn any_ops(r: &mut Rng, near: &[u64]) -> Ops {
    let pick = |r: &mut Rng| -> u64 {
        match r.below(8) {
            0 | 1 => r.below(12),
            2 => r.below(130),
            3 => r.pick(near).wrapping_add(r.below(3)).wrapping_sub(1),
            4 => r.pick(&[0, 1, 9, 10, 11, 99, 100, 101, 255, 256, 65535, 65536, 999_999, 1_000_000, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]).to_owned(),
            5 => r.mag(),
            6 => (1 + r.below(9)) * 10u64.pow(r.below(19) as u32),
            _ => r.next(),
        }
    };
    let (i, v, w, f, t) = (pick(r), pick(r) as usize, pick(r) as usize, pick(r), pick(r));
    let n = match r.below(8) {
        0 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, -1.0, -1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, -f64::NAN]),
        1 | 2 => i as f64,
        3 => i as f64 + [0.5, 0.1, 0.25, 1e-9][r.below(4) as usize],
        4 => pick(r) as f64,
        5 => -(pick(r) as f64),
        6 => pick(r) as f64 / 10.0,
        _ => f64::from_bits(r.next()),
    };
    Ops { n, i, v, w, f, t }
}
pub fn c19(env: &Env) -> ! {
    let mut rep = Report::new(env, "C19");
    let cl = cldr::load(&env.root);
    let mut jobs: Vec<(&'static str, &Locale)> = Vec::new();
    for l in &cl.cardinal { jobs.push(("cardinal", l)); }
    for l in &cl.ordinal { jobs.push(("ordinal", l)); }
    let dict: Vec<u64> = crate::dict::dict().ints.iter().copied().collect();
    let outs = par(&jobs, |_, (ty, l)| {
        let mut sub = Report::new(env, "C19");
        let mut r = Rng::new(env.seed, &format!("C19/{}/{}", ty, l.name));
        let pr = match create(&l.name, rule_type(ty)) { Ok(p) => p, Err(e) => { sub.violate(format!("{} {}: {}", ty, l.name, e), json!(["create", ty, l.name])); return (sub, 0, 0u8); } };
        let clone = pr.clone();
        let mut allowed = BTreeSet::from([OTHER]);
        for (c, _) in &l.rules { allowed.insert(*c); }
        let names = |s: &BTreeSet<u8>| s.iter().map(|c| CATS[*c as usize]).collect::<Vec<_>>().join(", ");
        let mut seen = BTreeSet::new();
        let mut near: Vec<u64> = vec![0];
        for rel in l.relations() { for it in &rel.list { let (a, b) = it.bounds(); near.extend([a, b]); } if let Some(m) = rel.modulus { near.push(m); near.push(m * 3); } }
        near.extend(&dict);
        let judge = |sub: &mut Report, seen: &mut BTreeSet<u8>, what: &dyn Fn() -> String, out: &Out, case: &dyn Fn() -> Value| {
            sub.evaluations += 1;
            match out {
                Out::Cat(c) if allowed.contains(c) => { seen.insert(*c); }
                Out::Cat(_) => sub.violate(format!("{} {}: {} -> {}, but the categories of this locale are {}", ty, l.name, what(), show(out), names(&allowed)), case()),
                _ => sub.violate(format!("{} {}: {} -> {}", ty, l.name, what(), show(out)), case()),
            }
        };
        let tuples = env.scale(30_000, 400_000);
        for k in 0..tuples {
            let o = any_ops(&mut r, &near);
            let a = select(if k % 2 == 0 { &pr } else { &clone }, po(&o));
            judge(&mut sub, &mut seen, &|| format!("{:?}", o), &a, &|| json!(["operands", ty, l.name, format!("{:?}", o)]));
            if k % 4 == 0 {
                let b = select(&pr, Mine(Ok(po(&o))));
                sub.evaluations += 1;
                if a != b { sub.violate(format!("{} {}: {:?} -> {}, then {}", ty, l.name, o, show(&a), show(&b)), json!(["operands", ty, l.name, format!("{:?}", o)])); }
            }
        }
        // Real numbers: the samples reach every category, and other numbers stay within them.
        for (_, d) in &l.samples { let a = select(&pr, d.text().as_str()); judge(&mut sub, &mut seen, &|| d.text(), &a, &|| json!(["select", ty, l.name, "Str", d.text()])); }
        let rnd = env.scale(3000, 40_000);
        for _ in 0..rnd {
            let d = nums::random_dec(&mut r);
            let c = *r.pick(&ALL);
            if let Some(x) = carry(&d, c) { let a = x.select(&pr); judge(&mut sub, &mut seen, &|| format!("{:?}", x), &a, &|| select_case(ty, &l.name, c, &d)); }
        }
        for c in allowed.difference(&seen) { sub.violate(format!("{} {}: category {} is never given, not even for the numbers CLDR lists for it", ty, l.name, CATS[*c as usize]), json!(["category", ty, l.name, CATS[*c as usize]])); }
        // What cannot be converted has no category.
        for bad in ["", "x", "1,5", "nan", "1.2.3", "-", "٣"] { sub.evaluations += 1; let a = select(&pr, bad); if a != Out::Err { sub.violate(format!("{} {}: {:?} -> {}", ty, l.name, bad, show(&a)), json!(["text", bad])); } }
        sub.evaluations += 3;
        for (x, a) in [("a caller's failing conversion", select(&pr, Mine(Err("no".into())))), ("f64::NAN", select(&pr, f64::NAN)), ("f32::INFINITY", select(&pr, f32::INFINITY))] { if a != Out::Err { sub.violate(format!("{} {}: {} -> {}", ty, l.name, x, show(&a)), json!(["text", x])); } }
        (sub, tuples + rnd, seen.len() as u8)
    });
    let mut pairs = 0;
    for (k, (s, n, c)) in outs.into_iter().enumerate() {
        rep.evaluations += s.evaluations;
        rep.total_violations += s.total_violations;
        if rep.violations.len() < 20 { rep.violations.extend(s.violations); }
        rep.distinct += n;
        pairs += c as u64;
        if k % 40 == 9 { rep.sample(json!(format!("{} {}: {} operand tuples, {} categories given", jobs[k].0, jobs[k].1.name, n, c))); }
    }
    rep.put("locale_category_pairs_observed", json!(pairs));
    rep.rule = "select() per (type, locale) on operand tuples of any values (NaN, infinities, negative n, tuples that describe no number), on CLDR's samples and random numbers; the answer must be a category CLDR lists for the locale, every listed category must be given for some sample, and what cannot be converted must be an error; distinct counts (type, locale, tuple or number) drawn".into();
    rep.finish(env)
}

// ---------------------------------------------------------------- replay

pub fn replay(case: &Value) -> Option<String> {
    let s = |k: usize| case[k].as_str().unwrap_or("").to_string();
    match s(0).as_str() {
        "select" => {
            let pr = match create(&s(2), rule_type(&s(1))) { Ok(p) => p, Err(e) => return Some(e) };
            let d = Dec::parse(&s(4))?;
            let n = carry(&d, carriers::carrier_named(&s(3))?)?;
            Some(format!("select {} {} {:?} -> {}", s(1), s(2), n, show(&n.select(&pr))))
        }
        "create" => Some(format!("create {} {} -> {:?}", s(1), s(2), create(&s(2), rule_type(&s(1))).map(|p| p.get_locale().to_string()))),
        "ops" | "text" => Some(format!("operands of {:?} -> {:?}", s(1), ops_of(s(1).as_str()))),
        _ => None,
    }
}

/// Maintenance tool (not run by any check): prints the relation-level findings of a rule type for
/// known_findings.txt, after confirming that they explain every deviation of the current tree.
pub fn list_findings(env: &Env) {
    let cl = cldr::load(&env.root);
    for (prop, ty, locs) in [("C01", "cardinal", &cl.cardinal), ("C02", "ordinal", &cl.ordinal)] {
        for l in locs {
            let mut r = Rng::new(env.seed, "list");
            let mut ns = nums::common(20_000);
            ns.extend(numbers_for(l, &mut r, 20, 20_000, 20_000));
            ns.sort();
            ns.dedup();
            let xs: Vec<Ops> = ns.iter().map(|d| d.ops().unwrap()).collect();
            let mut all: Vec<(u8, Rel)> = Vec::new();
            for (k, c) in &l.rules { for rel in c.iter().flatten() {
                if xs.iter().any(|x| eval_rel(rel, x) != eval_rel_quirk(rel, x)) && !all.contains(&(*k, rel.clone())) { all.push((*k, rel.clone())); }
            } }
            if all.is_empty() { continue; }
            let has = |set: &[(u8, Rel)], k: u8, r: &Rel| set.iter().any(|(a, b)| *a == k && b == r);
            let keep: Vec<(u8, Rel)> = all.iter().filter(|y| {
                let rest: Vec<(u8, Rel)> = all.iter().filter(|z| z != y).cloned().collect();
                let only = vec![(*y).clone()];
                xs.iter().any(|x| l.with_quirks(x, &|k, r| has(&all, k, r)) != l.with_quirks(x, &|k, r| has(&rest, k, r)) || l.with_quirks(x, &|k, r| has(&only, k, r)) != l.spec(x))
            }).cloned().collect();
            if keep.is_empty() { eprintln!("{} {}: {} deviating relations, none observable", ty, l.name, all.len()); continue; }
            let pr = create(&l.name, rule_type(ty)).unwrap();
            let mut ex: Vec<String> = Vec::new();
            for (d, x) in ns.iter().zip(&xs) {
                let got = select(&pr, d.text().as_str());
                let spec = l.spec(x);
                if got != Out::Cat(spec) {
                    assert_eq!(got, Out::Cat(l.with_quirks(x, &|k, r| has(&keep, k, r))), "{} {} {}", ty, l.name, d.text());
                    if ex.len() < 40_000 { ex.push(format!("{} -> {} instead of {}", d.text(), show(&got), CATS[spec as usize].to_uppercase())); }
                }
            }
            ex.sort_by_key(|e| (e.len(), e.clone()));
            let items: Vec<String> = keep.iter().map(|(k, r)| rel_key(*k, r)).collect();
            println!("known: property={} key={}/{} | {} | {} select in {}: {}", prop, ty, l.name, items.join("; "), ty, l.name, ex.iter().take(2).cloned().collect::<Vec<_>>().join(", "));
        }
    }
}
