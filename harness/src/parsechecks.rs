//! C08-C10: monitors at the public boundary of cldr_pluralrules_parser.
use crate::carriers::{panic_text, watched};
use crate::dec::digits_u64;
use crate::libchecks::{clip, hang_exit};
use crate::par::*;
use crate::refsem::*;
use crate::report::*;
use crate::rng::Rng;
use cldr_pluralrules_parser::{ast, parse_plural_condition, parse_plural_rule};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- observation

#[derive(Clone, Debug, PartialEq)]
pub enum Parsed<T> { Ok(T), Err, Panic(String) }

/// The AST as own types; a range with lower and upper bound is kept as a range.
pub fn cond_of(c: &ast::Condition) -> Cond {
    c.0.iter().map(|a| a.0.iter().map(rel_of).collect()).collect()
}
fn rel_of(r: &ast::Relation) -> Rel {
    Rel {
        opnd: match r.expression.operand {
            ast::Operand::N => Opnd::N, ast::Operand::I => Opnd::I, ast::Operand::V => Opnd::V,
            ast::Operand::W => Opnd::W, ast::Operand::F => Opnd::F, ast::Operand::T => Opnd::T,
        },
        modulus: r.expression.modulus.as_ref().map(|m| (m.0).0 as u64),
        op: match r.operator {
            ast::Operator::In => Op::In, ast::Operator::NotIn => Op::NotIn, ast::Operator::Within => Op::Within, ast::Operator::NotWithin => Op::NotWithin,
            ast::Operator::Is => Op::Is, ast::Operator::IsNot => Op::IsNot, ast::Operator::EQ => Op::Eq, ast::Operator::NotEQ => Op::Ne,
        },
        list: r.range_list.0.iter().map(|i| match i {
            ast::RangeListItem::Value(v) => Item::Val(v.0 as u64),
            ast::RangeListItem::Range(r) => Item::Range(r.lower_val.0 as u64, r.upper_val.0 as u64),
        }).collect(),
    }
}
/// A sample bound as the AST represents it: integer and (numeric) fraction digits.
pub type AVal = (u64, Option<u64>);
#[derive(Clone, Debug, PartialEq)]
pub struct AList { pub ranges: Vec<(AVal, Option<AVal>)>, pub ellipsis: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct ARule { pub cond: Cond, pub some: bool, pub integer: Option<AList>, pub decimal: Option<AList> }
fn aval(d: &ast::DecimalValue) -> AVal { (d.integer.0 as u64, d.decimal.as_ref().map(|v| v.0 as u64)) }
fn alist(l: &ast::SampleList) -> AList {
    AList { ranges: l.sample_ranges.iter().map(|r| (aval(&r.lower_val), r.upper_val.as_ref().map(aval))).collect(), ellipsis: l.ellipsis }
}
pub fn rule(text: &str) -> Parsed<ARule> {
    match watched(|| parse_plural_rule(text)) {
        Ok(Ok(r)) => Parsed::Ok(ARule {
            cond: cond_of(&r.condition), some: r.samples.is_some(),
            integer: r.samples.as_ref().and_then(|s| s.integer.as_ref()).map(alist),
            decimal: r.samples.as_ref().and_then(|s| s.decimal.as_ref()).map(alist),
        }),
        Ok(Err(_)) => Parsed::Err,
        Err(e) => Parsed::Panic(panic_text(e)),
    }
}
pub fn condition(text: &str) -> Parsed<Cond> {
    match watched(|| parse_plural_condition(text)) {
        Ok(Ok(c)) => Parsed::Ok(cond_of(&c)),
        Ok(Err(_)) => Parsed::Err,
        Err(e) => Parsed::Panic(panic_text(e)),
    }
}

// ---------------------------------------------------------------- generation

pub fn gen_value(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=4 => r.below(12),
        5 => r.below(120),
        6 if r.chance(1, 2) => { let x = *r.pick(&crate::dict::dict().ints); x.saturating_add(r.below(3)).saturating_sub(1) }
        7 => *r.pick(&[0, 1, 10, 99, 100, 255, 256, 1000, 65535, 65536, 1_000_000, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX, u64::MAX - 1, 1 << 53, (1 << 53) + 1]),
        6 => r.below(1200),
        _ => r.mag(),
    }
}
/// A count: mostly small, rarely large (or what a constant of the sources suggests).
fn count(r: &mut Rng) -> u64 {
    match r.below(400) { 0 => 1 + r.below(300), 1 => { let x = *r.pick(&crate::dict::dict().ints); if x <= 400 { (x + r.below(3)).saturating_sub(1).max(1) } else { 20 } } 2..=9 => 1 + r.below(40), 10..=49 => 1 + r.below(9), 50..=99 => 3, 100..=199 => 2, _ => 1 }
}
pub fn gen_rel(r: &mut Rng) -> Rel {
    let n = count(r);
    Rel {
        opnd: *r.pick(&Opnd::ALL),
        modulus: if r.chance(2, 5) { Some(gen_value(r)) } else { None },
        op: *r.pick(&Op::ALL),
        list: (0..n).map(|_| if r.chance(2, 5) {
            let (a, b) = (gen_value(r), gen_value(r));
            if r.chance(1, 8) { Item::Range(a, b) } else { Item::Range(a.min(b), a.max(b)) }
        } else { Item::Val(gen_value(r)) }).collect(),
    }
}
pub fn gen_cond(r: &mut Rng) -> Cond {
    let ors = match r.below(100) { 0..=49 => 1, 50..=79 => 2, 80..=89 => 3, 90..=98 => 1 + r.below(8), _ => count(r) };
    (0..ors).map(|_| {
        let ands = match r.below(100) { 0..=49 => 1, 50..=79 => 2, 80..=89 => 3, 90..=98 => 1 + r.below(8), _ => count(r) };
        (0..ands).map(|_| gen_rel(r)).collect()
    }).collect()
}
fn blank(r: &mut Rng, style: u64) -> char {
    if style > 2 && r.chance(1, 3) { *r.pick(&['\t', '\n', '\t', ' ', '\r']) } else { ' ' }
}
fn sp0(r: &mut Rng, style: u64, o: &mut String) {
    let n = match style { 0 => 0, 1 => 1, _ => match r.below(5) { 0 | 1 => 1, 2 => 0, 3 => 2, _ => if r.chance(1, 60) { r.below(80) } else { r.below(5) } } };
    for _ in 0..n { o.push(blank(r, style)); }
}
fn sp1(r: &mut Rng, style: u64, o: &mut String) {
    o.push(blank(r, style));
    if style > 1 { for _ in 0..r.below(4) { o.push(blank(r, style)); } }
}
/// Blanks at the ends of a text and around the range dots, which the usual spelling does not have.
fn ends(r: &mut Rng, style: u64, o: &mut String) {
    if style > 1 && r.chance(1, 4) { sp0(r, style, o); }
}
fn put_num(r: &mut Rng, style: u64, v: u64, o: &mut String) {
    if style > 2 && r.chance(1, 10) { let n = if r.chance(1, 10) { 1 + r.below(40) } else { 1 + r.below(3) }; for _ in 0..n { o.push('0'); } }
    o.push_str(&v.to_string());
}
/// Prints a condition in one of its spellings. Style 0: no optional blanks; 1: the usual one;
/// 2: random spaces; 3: random spaces, tabs and leading zeros.
pub fn print_cond(r: &mut Rng, style: u64, c: &Cond, o: &mut String) {
    for (k, a) in c.iter().enumerate() {
        if k > 0 { sp1(r, style, o); o.push_str("or"); sp1(r, style, o); }
        for (j, rel) in a.iter().enumerate() {
            if j > 0 { sp1(r, style, o); o.push_str("and"); sp1(r, style, o); }
            o.push(rel.opnd.ch());
            if let Some(m) = rel.modulus {
                sp0(r, style, o);
                o.push_str(if r.chance(1, 3) { "mod" } else { "%" });
                sp0(r, style, o);
                put_num(r, style, m, o);
            }
            sp0(r, style, o);
            match rel.op {
                Op::Is => { o.push_str("is"); sp1(r, style, o); }
                op => { for (w, word) in op.words().iter().enumerate() { if w > 0 { sp1(r, style, o); } o.push_str(word); } sp0(r, style, o); }
            }
            for (q, it) in rel.list.iter().enumerate() {
                if q > 0 { sp0(r, style, o); o.push(','); sp0(r, style, o); }
                match it {
                    Item::Val(v) => put_num(r, style, *v, o),
                    Item::Range(a, b) => { put_num(r, style, *a, o); ends(r, style, o); o.push_str(".."); ends(r, style, o); put_num(r, style, *b, o); }
                }
            }
        }
    }
}
fn gen_sval(r: &mut Rng, dec: bool) -> SampleVal {
    let int = if r.chance(4, 5) { r.below(200) } else { gen_value(r) };
    let frac = if !dec && r.chance(9, 10) || dec && r.chance(1, 10) { None } else {
        Some(match r.below(6) {
            0 | 1 => r.below(10).to_string(),
            2 => format!("{}0", r.below(100)),
            3 => "0".repeat(1 + r.below(4) as usize),
            4 => format!("{}{}", "0".repeat(1 + r.below(3) as usize), r.below(100)),
            _ => gen_value(r).to_string(),
        })
    };
    SampleVal { int, frac }
}
pub fn gen_slist(r: &mut Rng, dec: bool) -> SampleList {
    let n = match r.below(8) { 0..=2 => count(r), 3..=5 => 2 + r.below(3), _ => 1 + r.below(14) };
    SampleList {
        ranges: (0..n).map(|_| { let a = gen_sval(r, dec); let b = if r.chance(1, 3) { Some(gen_sval(r, dec)) } else { None }; (a, b) }).collect(),
        ellipsis: r.chance(1, 2),
    }
}
fn put_sval(v: &SampleVal, o: &mut String) {
    o.push_str(&v.int.to_string());
    if let Some(f) = &v.frac { o.push('.'); o.push_str(f); }
}
fn print_slist(r: &mut Rng, style: u64, l: &SampleList, o: &mut String) {
    for (k, (a, b)) in l.ranges.iter().enumerate() {
        if k > 0 { sp0(r, style, o); o.push(','); sp0(r, style, o); }
        put_sval(a, o);
        if let Some(b) = b { sp0(r, style, o); o.push('~'); sp0(r, style, o); put_sval(b, o); }
    }
    if l.ellipsis { sp0(r, style, o); o.push(','); sp0(r, style, o); o.push_str(if r.chance(1, 2) { "..." } else { "…" }); }
}
pub fn print_samples(r: &mut Rng, style: u64, i: &Option<SampleList>, d: &Option<SampleList>, o: &mut String) {
    for (key, l) in [("@integer", i), ("@decimal", d)] {
        if let Some(l) = l {
            if style == 0 && r.chance(1, 2) { } else { sp1(r, style, o); }
            o.push_str(key);
            sp1(r, style, o);
            print_slist(r, style, l, o);
        }
    }
}

// ---------------------------------------------------------------- C08

fn merge(rep: &mut Report, subs: Vec<(Report, Distinct, BTreeMap<String, u64>)>) -> (u64, BTreeMap<String, u64>) {
    let mut d = Distinct::default();
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    for (s, x, c) in subs {
        rep.evaluations += s.evaluations;
        rep.total_violations += s.total_violations;
        if rep.violations.len() < 20 { rep.violations.extend(s.violations); }
        for (k, n) in s.known_hits { *rep.known_hits.entry(k).or_insert(0) += n; }
        for x in s.samples { rep.sample(x); }
        d.merge(x);
        for (k, n) in c { *m.entry(k).or_insert(0) += n; }
    }
    (d.len(), m)
}
fn check_cond(sub: &mut Report, text: &str, want: &Cond, with_samples: bool) {
    sub.evaluations += 1;
    let case = json!(["parse", text]);
    match rule(text) {
        Parsed::Ok(g) if g.cond == *want => {}
        Parsed::Ok(g) => sub.violate(format!("rule {:?} parses to {:?}, not {:?}", clip(text), cond_text(&g.cond), cond_text(want)), case.clone()),
        Parsed::Err => sub.violate(format!("rule {:?} is refused", clip(text)), case.clone()),
        Parsed::Panic(m) => sub.violate(format!("rule {:?} panics: {}", clip(text), m), case.clone()),
    }
    match condition(text) {
        Parsed::Ok(g) if g == *want => {}
        Parsed::Ok(g) => sub.violate(format!("condition {:?}{} parses to {:?}, not {:?}", clip(text), if with_samples { " (with samples)" } else { "" }, cond_text(&g), cond_text(want)), case),
        Parsed::Err => sub.violate(format!("condition {:?} is refused", clip(text)), case),
        Parsed::Panic(m) => sub.violate(format!("condition {:?} panics: {}", clip(text), m), case),
    }
}
pub fn c08(env: &Env) -> ! {
    let mut rep = Report::new(env, "C08");
    let watch = Watch::default();
    watch.start(60, hang_exit("C08", env.root.clone(), env.tier.clone(), env.seed));
    let chunks: Vec<u64> = (0..64).collect();
    let per = env.scale(80_000, 600_000);
    let subs = par(&chunks, |_, ch| {
        let slot = watch.slot();
        let mut sub = Report::new(env, "C08");
        let mut distinct = Distinct::default();
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        let mut r = Rng::new(env.seed, &format!("C08/{}", ch));
        // every operand x operator x modulus spelling x item shape, alone and joined (split over the chunks)
        let mut k = 0u64;
        for opnd in Opnd::ALL { for op in Op::ALL { for m in [None, Some(10), Some(0), Some(u64::MAX)] {
            for list in [vec![Item::Val(0)], vec![Item::Val(u64::MAX)], vec![Item::Range(2, 4)], vec![Item::Val(1), Item::Range(3, 5)], vec![Item::Range(3, 5), Item::Val(1)], vec![Item::Range(0, u64::MAX), Item::Range(7, 8), Item::Val(9)]] {
                for style in 0..4 {
                    k += 1;
                    if k % 64 != *ch { continue; }
                    let rel = Rel { opnd, modulus: m, op, list: list.clone() };
                    let other = gen_rel(&mut r);
                    for c in [vec![vec![rel.clone()]], vec![vec![rel.clone(), other.clone()]], vec![vec![other.clone()], vec![rel.clone()]], vec![vec![rel.clone(), rel.clone()], vec![other.clone(), rel.clone(), rel.clone()]]] {
                        let mut t = String::new();
                        ends(&mut r, style, &mut t);
                        print_cond(&mut r, style, &c, &mut t);
                        ends(&mut r, style, &mut t);
                        slot.begin(&t);
                        distinct.add(&t);
                        check_cond(&mut sub, &t, &c, false);
                    }
                }
            }
        } } }
        for k in 0..per {
            let c = gen_cond(&mut r);
            let style = r.below(4);
            let mut t = String::new();
            ends(&mut r, style, &mut t);
            print_cond(&mut r, style, &c, &mut t);
            let with = r.chance(1, 3);
            if with {
                let i = if r.chance(2, 3) { Some(gen_slist(&mut r, false)) } else { None };
                let d = if r.chance(1, 2) { Some(gen_slist(&mut r, true)) } else { None };
                print_samples(&mut r, style, &i, &d, &mut t);
            }
            ends(&mut r, style, &mut t);
            slot.begin(&t);
            if !distinct.add(&t) { continue; }
            for rel in c.iter().flatten() {
                *seen.entry(format!("{} {}{}", rel.opnd.ch(), if rel.modulus.is_some() { "% " } else { "" }, rel.op.words().join(" "))).or_insert(0) += 1;
            }
            check_cond(&mut sub, &t, &c, with);
            if k == 7 && *ch < 10 { sub.sample(json!(t)); }
        }
        // long conditions
        for n in [50usize, 500] {
            let c: Cond = (0..n).map(|_| (0..1 + r.below(3)).map(|_| gen_rel(&mut r)).collect()).collect();
            let mut t = String::new();
            print_cond(&mut r, 2, &c, &mut t);
            slot.begin(&t);
            check_cond(&mut sub, &t, &c, false);
        }
        slot.end();
        (sub, distinct, seen)
    });
    let (d, seen) = merge(&mut rep, subs);
    rep.distinct = d;
    // the real data
    let cl = crate::cldr::load_texts(&env.root);
    for (_, t) in &cl {
        if let Some(x) = parse_rule(t) { check_cond(&mut rep, t, &x.cond, true); }
    }
    rep.put("cldr_rule_texts", json!(cl.len()));
    rep.put("relation_forms", json!(seen.len()));
    rep.put("least_seen_form", json!(seen.iter().min_by_key(|(_, n)| **n)));
    if seen.len() < 96 { rep.inconclusive.push(format!("only {} of 96 relation forms generated", seen.len())); }
    rep.rule = "conditions generated as data, printed in one of many spellings (no blanks, usual, random spaces, tabs and leading zeros, % or mod), parsed by both parsers and compared with the data they were printed from; distinct counts distinct texts".into();
    rep.finish(env)
}

// ---------------------------------------------------------------- C09

/// What the AST can hold of the expected list; true when leading zeros of a fraction are lost.
fn as_ast(l: &SampleList) -> (AList, bool) {
    let mut lossy = false;
    let mut val = |v: &SampleVal| -> AVal {
        (v.int, v.frac.as_ref().map(|f| { if f.len() > 1 && f.starts_with('0') { lossy = true; } digits_u64(f).unwrap() }))
    };
    let ranges = l.ranges.iter().map(|(a, b)| { let a = val(a); (a, b.as_ref().map(&mut val)) }).collect();
    (AList { ranges, ellipsis: l.ellipsis }, lossy)
}
pub fn c09(env: &Env) -> ! {
    let mut rep = Report::new(env, "C09");
    let listed = rep.known.contains_key("fraction-leading-zeros");
    let watch = Watch::default();
    watch.start(60, hang_exit("C09", env.root.clone(), env.tier.clone(), env.seed));
    let chunks: Vec<u64> = (0..64).collect();
    let per = env.scale(80_000, 600_000);
    let check = |sub: &mut Report, t: &str, c: &Cond, i: &Option<SampleList>, d: &Option<SampleList>| {
        sub.evaluations += 1;
        let case = json!(["parse", t]);
        let got = match rule(t) {
            Parsed::Ok(g) => g,
            Parsed::Err => { sub.violate(format!("rule {:?} is refused", clip(t)), case); return; }
            Parsed::Panic(m) => { sub.violate(format!("rule {:?} panics: {}", clip(t), m), case); return; }
        };
        if got.cond != *c { sub.violate(format!("rule {:?}: the condition becomes {:?}", clip(t), cond_text(&got.cond)), case.clone()); }
        if got.some != (i.is_some() || d.is_some()) { sub.violate(format!("rule {:?}: samples {}", clip(t), if got.some { "invented" } else { "lost" }), case.clone()); return; }
        for (name, want, have) in [("@integer", i, &got.integer), ("@decimal", d, &got.decimal)] {
            match (want, have) {
                (None, None) => {}
                (Some(w), Some(h)) => {
                    let (e, lossy) = as_ast(w);
                    if e != *h { sub.violate(format!("rule {:?}: {} list parsed as {:?}", clip(t), name, h), case.clone()); }
                    else if lossy {
                        if listed { sub.known_hit("fraction-leading-zeros"); } else { sub.violate(format!("rule {:?}: leading zeros of a fraction are lost", clip(t)), case.clone()); }
                    }
                }
                _ => sub.violate(format!("rule {:?}: {} list {}", clip(t), name, if want.is_some() { "lost" } else { "invented" }), case.clone()),
            }
        }
        // The condition parser sees the same condition.
        if condition(t) != Parsed::Ok(c.clone()) { sub.violate(format!("condition parser on {:?}: {:?}", clip(t), condition(t)), case); }
    };
    let subs = par(&chunks, |_, ch| {
        let slot = watch.slot();
        let mut sub = Report::new(env, "C09");
        let mut distinct = Distinct::default();
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        let mut r = Rng::new(env.seed, &format!("C09/{}", ch));
        for k in 0..per {
            let c = if r.chance(1, 3) { vec![] } else { gen_cond(&mut r) };
            let style = r.below(4);
            let mut t = String::new();
            ends(&mut r, style, &mut t);
            print_cond(&mut r, style, &c, &mut t);
            let shape = r.below(4);
            let i = if shape & 1 == 0 { Some(gen_slist(&mut r, false)) } else { None };
            let d = if shape & 2 == 0 { Some(gen_slist(&mut r, true)) } else { None };
            print_samples(&mut r, style, &i, &d, &mut t);
            ends(&mut r, style, &mut t);
            slot.begin(&t);
            if !distinct.add(&t) { continue; }
            *seen.entry(format!("cond={} integer={} decimal={}", !c.is_empty(), i.is_some(), d.is_some())).or_insert(0) += 1;
            for l in [&i, &d].into_iter().flatten() {
                if l.ellipsis { *seen.entry("ellipsis".into()).or_insert(0) += 1; }
                *seen.entry("ranges".into()).or_insert(0) += l.ranges.iter().filter(|x| x.1.is_some()).count() as u64;
                *seen.entry("values".into()).or_insert(0) += l.ranges.len() as u64;
            }
            check(&mut sub, &t, &c, &i, &d);
            if k == 5 && *ch < 10 { sub.sample(json!(t)); }
        }
        slot.end();
        (sub, distinct, seen)
    });
    let (d, seen) = merge(&mut rep, subs);
    rep.distinct = d;
    for (_, t) in crate::cldr::load_texts(&env.root) {
        let x = parse_rule(&t).expect("pinned data");
        check(&mut rep, &t, &x.cond, &x.integer, &x.decimal);
    }
    if seen.len() < 11 { rep.inconclusive.push("a shape of sample lists was not generated".into()); }
    rep.put("shapes", json!(seen));
    rep.rule = "sample lists generated as data, printed after generated or no conditions, parsed and compared with the data; also every rule text of CLDR 37; distinct counts distinct texts".into();
    rep.finish(env)
}

// ---------------------------------------------------------------- C10

/// Text without blanks, numbers without leading zeros and kept apart, one spelling per token.
pub fn canon(text: &str) -> String {
    let t = text.replace("mod", "%").replace('…', "...");
    let cs: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut k = 0;
    let mut gap = false;
    while k < cs.len() {
        if cs[k].is_whitespace() { gap = true; k += 1; continue; }
        if cs[k].is_ascii_digit() {
            let a = k;
            while k < cs.len() && cs[k].is_ascii_digit() { k += 1; }
            let d: String = cs[a..k].iter().collect();
            let d = d.trim_start_matches('0');
            if gap && o.ends_with(|c: char| c.is_ascii_digit()) { o.push('|'); }
            o.push_str(if d.is_empty() { "0" } else { d });
        } else { o.push(cs[k]); k += 1; }
        gap = false;
    }
    o
}
fn print_plain(r: &ARule) -> String {
    let mut o = cond_plain(&r.cond);
    let v = |v: &AVal| match v.1 { Some(f) => format!("{}.{}", v.0, f), None => v.0.to_string() };
    for (k, l) in [("@integer", &r.integer), ("@decimal", &r.decimal)] {
        if let Some(l) = l {
            o.push_str(k);
            let mut parts: Vec<String> = l.ranges.iter().map(|(a, b)| match b { Some(b) => format!("{}~{}", v(a), v(b)), None => v(a) }).collect();
            if l.ellipsis { parts.push("...".into()); }
            o.push_str(&parts.join(","));
        }
    }
    o
}
fn cond_plain(c: &Cond) -> String {
    c.iter().map(|a| a.iter().map(|r| {
        let m = r.modulus.map(|m| format!("%{}", m)).unwrap_or_default();
        let l: Vec<String> = r.list.iter().map(|i| i.text()).collect();
        format!("{}{}{}{}", r.opnd.ch(), m, r.op.words().concat(), l.join(","))
    }).collect::<Vec<_>>().join("and")).collect::<Vec<_>>().join("or")
}
fn hollow(c: &Cond) -> bool { c.iter().any(|a| a.is_empty() || a.iter().any(|r| r.list.is_empty())) }

pub fn any_rule_check(sub: &mut Report, t: &str) -> &'static str {
    sub.evaluations += 1;
    let case = json!(["parse", t]);
    let bare = t.trim().is_empty() || t.trim().starts_with('@');
    let a = rule(t);
    let b = condition(t);
    let can = canon(t);
    let out = match &a {
        Parsed::Panic(m) => { sub.violate(format!("rule {:?} panics: {}", clip(t), m), case.clone()); "panic" }
        Parsed::Err => "refused",
        Parsed::Ok(r) => {
            let p = print_plain(r);
            if p != can { sub.violate(format!("{:?} is accepted, but the result only stands for {:?}", clip(t), clip(&p)), case.clone()); }
            if hollow(&r.cond) || r.cond.is_empty() && !bare { sub.violate(format!("{:?} is accepted with a missing relation or value", clip(t)), case.clone()); }
            if [&r.integer, &r.decimal].into_iter().flatten().any(|l| l.ranges.is_empty()) || r.some != (r.integer.is_some() || r.decimal.is_some()) {
                sub.violate(format!("{:?} is accepted with an empty sample list", clip(t)), case.clone());
            }
            match &b {
                Parsed::Ok(c) if *c == r.cond => {}
                _ => sub.violate(format!("{:?}: rule parser sees {:?}, condition parser {:?}", clip(t), cond_text(&r.cond), b), case.clone()),
            }
            "accepted"
        }
    };
    match &b {
        Parsed::Panic(m) => { sub.violate(format!("condition {:?} panics: {}", clip(t), m), case); "panic" }
        Parsed::Err => out,
        Parsed::Ok(c) => {
            let p = cond_plain(c);
            let rest = can.strip_prefix(p.as_str());
            let cut = match rest { None => true, Some(x) => !p.is_empty() && x.starts_with(|c: char| c.is_ascii_digit()) };
            if cut { sub.violate(format!("condition {:?}: the result {:?} is not what the text begins with", clip(t), clip(&p)), case.clone()); }
            if hollow(c) || c.is_empty() && !bare { sub.violate(format!("condition {:?} is accepted with a missing relation or value", clip(t)), case); }
            if out == "refused" { "condition only" } else { out }
        }
    }
}
pub const TOKENS: &[&str] = &["n", "i", "%", "mod", "=", "!=", "is", "not", "in", "within", "and", "or", ",", "..", "...", "…", "1", "20", " ", "@integer", "@decimal", "~", ".", "!", "x", "99999999999999999999"];
/// One token replaced by something that looks or means the same elsewhere, but is not of the grammar.
fn lookalike(r: &mut Rng, t: &str) -> String {
    let class = |c: char| if c.is_alphabetic() || c == '@' { 0 } else if c.is_numeric() { 1 } else if c == '.' || c == '…' { 2 } else if "=!".contains(c) { 3 } else if c.is_whitespace() { 4 } else { 5 };
    let mut parts: Vec<String> = Vec::new();
    let mut last = 9;
    for c in t.chars() { let k = class(c); if k == last && k < 5 { parts.last_mut().unwrap().push(c) } else { parts.push(c.to_string()) } last = k; }
    if parts.is_empty() { return t.to_string(); }
    for _ in 0..20 {
        let k = r.below(parts.len() as u64) as usize;
        let x = parts[k].clone();
        let other: &[&str] = match x.as_str() {
            "or" => &["OR", "Or", "oR", "|", "||", "nor", "xor", "ог", "or else"], "and" => &["AND", "And", "&", "&&", "nand", "аnd", "und", "and not"],
            "n" => &["N", "ｎ", "п", "abs(n)", "-n"], "i" => &["I", "ı", "і", "l", "j"], "v" => &["V", "ν"], "w" => &["W"], "f" => &["F"], "t" => &["T", "т"],
            "is" => &["IS", "Is", "==", "iѕ", "isnt"], "not" => &["NOT", "Not", "!", "nоt", "no"], "in" => &["IN", "In", "∈", "ın", "inn"], "within" => &["WITHIN", "with", "with in", "Within"],
            "mod" => &["MOD", "Mod", "modulo", "rem", "%%", "//"], "%" => &["%%", "٪", "/", "％", "%="],
            "=" => &["==", "===", ":", "≡", "＝", "=>", "=<", "<=", "~"], "!=" => &["<>", "≠", "=!", "!==", "/=", "! =", "!", "~="],
            ".." => &["‥", ".", "-", "–", "...", "....", "~", "…", ". .", "to", "..="], "…" | "..." => &["..", "....", "……", "⋯", ". . .", "etc", "…."],
            "," => &[";", "，", "،", ",,", "|", "/"], "~" => &["-", "～", "..", "~~", "to", "–"],
            "@integer" => &["@Integer", "@INTEGER", "@int", "@integers", "integer", "@ integer", "＠integer", "@@integer", "@decimal"], "@decimal" => &["@Decimal", "@DECIMAL", "@dec", "@decimals", "decimal", "@ decimal", "@compact", "@@decimal", "@integer"],
            _ => match x.chars().next() {
                Some(c) if c.is_numeric() => &["１", "٣", "Ⅷ", "²", "½", "1_000", "1'000", "0x1", "-1", "+1", "1.0", "1e1", "1 0", "#1", "٠"],
                Some(c) if c.is_whitespace() => &["\u{a0}", "\u{3000}", "\u{200b}", "\u{feff}", "_", "\u{b}", "\u{85}", "\u{2028}", "/**/"],
                _ => continue,
            },
        };
        let y = *r.pick(other);
        parts[k] = if r.chance(1, 8) { format!("{}{}", x, y) } else if r.chance(1, 8) && x.is_ascii() && y.is_ascii() && x.len() > 1 { let mut z: Vec<char> = x.chars().collect(); let q = r.below(z.len() as u64) as usize; z[q] = z[q].to_ascii_uppercase(); z.into_iter().collect() } else { y.to_string() };
        break;
    }
    parts.concat()
}
pub fn mutate(r: &mut Rng, t: &str) -> String {
    if r.chance(1, 5) { return lookalike(r, t); }
    let mut v: Vec<char> = t.chars().collect();
    const EXTRA: &[char] = &['n', 'i', 'v', 'w', 'f', 't', 'e', 'c', '=', '!', '<', '%', ',', '.', '~', '@', '…', ' ', '\t', '\n', '0', '9', '-', '+', '(', ')', ';', 'N', 'é', '\u{a0}', '😀', '\0', '１', 'o', 'a', 's', 'd'];
    for _ in 0..1 + r.below(3) {
        let n = v.len();
        let p = r.below(n as u64 + 1) as usize;
        match r.below(7) {
            0 => { let d = crate::dict::dict(); v.insert(p, if r.chance(1, 6) && !d.chars.is_empty() { *r.pick(&d.chars) } else { *r.pick(EXTRA) }) }
            1 => { if p < n { v[p] = *r.pick(EXTRA); } }
            2 => { if p < n { v.remove(p); } }
            3 => { if p + 1 < n { v.swap(p, p + 1); } }
            4 => { v.truncate(p); }
            5 => { let d = crate::dict::dict(); let tok: Vec<char> = if r.chance(1, 3) && !d.texts.is_empty() { r.pick(&d.texts).chars().collect() } else { r.pick(TOKENS).chars().collect() }; for (k, c) in tok.into_iter().enumerate() { v.insert(p + k, c); } }
            _ => { let q = (p + 1 + r.below(8) as usize).min(n); let piece: Vec<char> = v[p.min(q)..q].to_vec(); if r.chance(1, 2) { for (k, c) in piece.into_iter().enumerate() { v.insert(p + k, c); } } else { v.drain(p.min(q)..q); } }
        }
    }
    v.into_iter().collect()
}
pub fn c10(env: &Env) -> ! {
    let mut rep = Report::new(env, "C10");
    let watch = Watch::default();
    watch.start(60, hang_exit("C10", env.root.clone(), env.tier.clone(), env.seed));
    // exhaustive token sequences around fixed frames
    let frames: Vec<(&str, &str)> = vec![("", ""), ("n ", ""), ("n = 1", ""), ("n", " 1"), ("n = 1 ", " v = 0"), ("n = 1 @integer 1", ""), ("n = 1 @integer ", ""), ("@decimal 1.0", "")];
    let mut jobs: Vec<(usize, usize)> = Vec::new();
    for f in 0..frames.len() { for h in 0..TOKENS.len() { jobs.push((f, h)); } }
    let depth = env.scale(4, 5) as u32;
    let subs = par(&jobs, |_, (f, h)| {
        let slot = watch.slot();
        let mut sub = Report::new(env, "C10");
        let mut distinct = Distinct::default();
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        let mut t = String::new();
        for len in 1..=depth {
            let total = (TOKENS.len() as u64).pow(len - 1);
            for k in 0..total {
                t.clear();
                t.push_str(frames[*f].0);
                t.push_str(TOKENS[*h]);
                let mut x = k;
                for _ in 1..len { t.push_str(TOKENS[(x % TOKENS.len() as u64) as usize]); x /= TOKENS.len() as u64; }
                t.push_str(frames[*f].1);
                slot.begin(&t);
                if len < 5 { distinct.add(&t); }
                *seen.entry(any_rule_check(&mut sub, &t).into()).or_insert(0) += 1;
            }
        }
        slot.end();
        (sub, distinct, seen)
    });
    let (d, seen) = merge(&mut rep, subs);
    rep.put("token_sequences", json!({"outcomes": seen, "frames": frames.len(), "tokens": TOKENS.len(), "max_length": depth}));
    rep.distinct = d;
    // every character in place of, in front of and behind each piece of a rule
    let pieces: Vec<&str> = vec!["n", " ", "%", " ", "1", "0", " ", "=", " ", "1", "..", "3", ",", " ", "5", " ", "and", " ", "v", " ", "not", " ", "in", " ", "0", " ", "or", " ", "i", " ", "within", " ", "2", " ", "@integer", " ", "1", "~", "5", ",", " ", "…", " ", "@decimal", " ", "1", ".", "5", ",", " ", "..."];
    let planes: Vec<u32> = (0..0x20000u32 / 0x400).collect();
    let subs = par(&planes, |_, p| {
        let slot = watch.slot();
        let mut sub = Report::new(env, "C10");
        let mut distinct = Distinct::default();
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        for c in (p * 0x400..(p + 1) * 0x400).filter_map(char::from_u32) {
            // rarely used planes: every third piece, another one per character
            let step = if p * 0x400 < 0x3400 || c.is_alphanumeric() && c.to_lowercase().any(|x| x.is_ascii()) || env.thorough() { 1 } else { 6 };
            for at in (c as usize % step..pieces.len()).step_by(step) {
                for how in 0..2 {
                    let mut t: String = pieces[..at].concat();
                    t.push(c);
                    if how == 1 { t.push_str(pieces[at]); }
                    t.push_str(&pieces[at + 1..].concat());
                    slot.begin(&t);
                    distinct.add(&t);
                    *seen.entry(any_rule_check(&mut sub, &t).into()).or_insert(0) += 1;
                }
            }
        }
        slot.end();
        (sub, distinct, seen)
    });
    let (d, seen) = merge(&mut rep, subs);
    rep.put("every_character_up_to_U_1FFFF", json!({"outcomes": seen, "pieces": pieces.len()}));
    rep.distinct += d;
    // near-misses of valid rules, hostile strings
    let chunks: Vec<u64> = (0..64).collect();
    let per = env.scale(100_000, 1_500_000);
    let data: Vec<String> = crate::cldr::load_texts(&env.root).into_iter().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect();
    let subs = par(&chunks, |_, ch| {
        let slot = watch.slot();
        let mut sub = Report::new(env, "C10");
        let mut distinct = Distinct::default();
        let mut seen: BTreeMap<String, u64> = BTreeMap::new();
        let mut r = Rng::new(env.seed, &format!("C10/{}", ch));
        for k in 0..per {
            let t = match r.below(8) {
                0 => { let b = r.pick(&data).clone(); mutate(&mut r, &b) }
                1 => crate::libchecks::hostile_string(&mut r),
                2 => { let n = 1 + r.below(14); (0..n).map(|_| *r.pick(TOKENS)).collect::<Vec<_>>().join(if r.chance(1, 2) { " " } else { "" }) }
                _ => {
                    let c = if r.chance(1, 8) { vec![] } else { gen_cond(&mut r) };
                    let style = r.below(4);
                    let mut t = String::new();
                    print_cond(&mut r, style, &c, &mut t);
                    if r.chance(1, 3) {
                        let i = if r.chance(2, 3) { Some(gen_slist(&mut r, false)) } else { None };
                        let d = if r.chance(1, 2) { Some(gen_slist(&mut r, true)) } else { None };
                        print_samples(&mut r, style, &i, &d, &mut t);
                    }
                    if r.chance(1, 12) { t } else { mutate(&mut r, &t) }
                }
            };
            slot.begin(&t);
            if !distinct.add(&t) { continue; }
            *seen.entry(any_rule_check(&mut sub, &t).into()).or_insert(0) += 1;
            if k == 11 && *ch < 12 { sub.sample(json!(clip(&t))); }
        }
        slot.end();
        (sub, distinct, seen)
    });
    let (d, seen) = merge(&mut rep, subs);
    rep.distinct += d;
    for w in ["accepted", "refused", "condition only"] { if !seen.contains_key(w) { rep.inconclusive.push(format!("outcome {:?} never observed", w)); } }
    rep.put("near_misses", json!(seen));
    // long inputs
    let slot = watch.slot();
    let mut long = 0;
    for n in [20usize, 1000, 100_000] {
        for (a, p, z) in [("n = ", "1", ""), ("n = 1", " or n = 2", ""), ("n = 1", " and n = 2", ""), ("n = 1", ",2", ""), ("n = 1", ",2", ","), ("n", " ", "= 1"), ("n = 1", " ", "and v = 0"), ("n = 1 @integer 1", ", 2", ", …"), ("", " ", ""), ("", "@", ""), ("n % ", "9", " = 1"), ("n = 1", "..1", ""), ("", "(", ""), ("n ", "not ", "in 1"), ("n = 1 @integer ", "1", ""), ("", "é", ""), ("n is ", "not ", "1"), ("@integer 1.", "0", "")] {
            let t = format!("{}{}{}", a, p.repeat(n), z);
            slot.begin(&t);
            any_rule_check(&mut rep, &t);
            long += 1;
        }
    }
    slot.end();
    rep.put("long_inputs", json!(long));
    rep.rule = "one text per evaluation through both parsers: all token sequences up to a length in fixed frames, mutated valid rules, random token strings, hostile and long strings; accepted results must print back to the text (blanks, mod/%, ellipsis spelling and leading zeros aside) and contain no empty part; distinct counts distinct texts (token sequences of length 5 not counted)".into();
    rep.finish(env)
}
pub fn replay(case: &Value) -> Option<String> {
    if case[0] != "parse" { return None; }
    let t = case[1].as_str()?;
    Some(format!("rule parser -> {:?}; condition parser -> {:?}", rule(t), condition(t)))
}
