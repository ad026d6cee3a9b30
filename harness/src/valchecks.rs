//! C22: equality, copies and text form of the public values.
use crate::libchecks::clip;
use crate::par::par;
use crate::report::*;
use crate::rng::Rng;
use cldr_pluralrules_parser::ast::*;
use intl_pluralrules::{operands::PluralOperands, PluralCategory, PluralRuleType};
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- the parts of an AST, read field by field

const OPNDS: usize = 6;
fn opnd(k: usize) -> Operand { match k % OPNDS { 0 => Operand::N, 1 => Operand::I, 2 => Operand::V, 3 => Operand::W, 4 => Operand::F, _ => Operand::T } }
fn opnd_no(o: &Operand) -> usize { match o { Operand::N => 0, Operand::I => 1, Operand::V => 2, Operand::W => 3, Operand::F => 4, Operand::T => 5 } }
const OPS: usize = 8;
fn op(k: usize) -> Operator { match k % OPS { 0 => Operator::In, 1 => Operator::NotIn, 2 => Operator::Within, 3 => Operator::NotWithin, 4 => Operator::Is, 5 => Operator::IsNot, 6 => Operator::EQ, _ => Operator::NotEQ } }
fn op_no(o: &Operator) -> usize { match o { Operator::In => 0, Operator::NotIn => 1, Operator::Within => 2, Operator::NotWithin => 3, Operator::Is => 4, Operator::IsNot => 5, Operator::EQ => 6, Operator::NotEQ => 7 } }
type Sig = Vec<usize>;
fn sig_rel(r: &Relation, s: &mut Sig) {
    s.push(opnd_no(&r.expression.operand));
    match &r.expression.modulus { None => s.push(0), Some(m) => { s.push(1); s.push((m.0).0); } }
    s.push(op_no(&r.operator));
    s.push(r.range_list.0.len());
    for i in &r.range_list.0 { match i { RangeListItem::Value(v) => { s.push(0); s.push(v.0); } RangeListItem::Range(x) => { s.push(1); s.push(x.lower_val.0); s.push(x.upper_val.0); } } }
}
fn sig_cond(c: &Condition, s: &mut Sig) {
    s.push(c.0.len());
    for a in &c.0 { s.push(a.0.len()); for r in &a.0 { sig_rel(r, s); } }
}
fn sig_dec(d: &DecimalValue, s: &mut Sig) { s.push(d.integer.0); match &d.decimal { None => s.push(0), Some(v) => { s.push(1); s.push(v.0); } } }
fn sig_list(l: &Option<SampleList>, s: &mut Sig) {
    match l {
        None => s.push(0),
        Some(l) => {
            s.push(1);
            s.push(l.sample_ranges.len());
            for r in &l.sample_ranges { sig_dec(&r.lower_val, s); match &r.upper_val { None => s.push(0), Some(d) => { s.push(1); sig_dec(d, s); } } }
            s.push(l.ellipsis as usize);
        }
    }
}
fn sig(r: &Rule) -> Sig {
    let mut s = Vec::new();
    sig_cond(&r.condition, &mut s);
    match &r.samples { None => s.push(0), Some(x) => { s.push(1); sig_list(&x.integer, &mut s); sig_list(&x.decimal, &mut s); } }
    s
}

// ---------------------------------------------------------------- ASTs

fn val(r: &mut Rng) -> Value { Value(match r.below(8) { 0..=4 => r.below(12), 5 => r.below(1000), 6 => r.mag(), _ => *r.pick(&[0, 1, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, 1 << 53, (1 << 53) + 1, u64::MAX - 1, u64::MAX]) } as usize) }
fn item(r: &mut Rng) -> RangeListItem { if r.chance(1, 2) { RangeListItem::Value(val(r)) } else { RangeListItem::Range(Range { lower_val: val(r), upper_val: val(r) }) } }
fn count(r: &mut Rng) -> u64 { match r.below(30) { 0..=19 => 1 + r.below(3), 20..=28 => r.below(6), _ => r.below(40) } }
fn rel(r: &mut Rng) -> Relation {
    let n = count(r);
    Relation { expression: Expression { operand: opnd(r.below(6) as usize), modulus: if r.chance(1, 2) { Some(Modulo(val(r))) } else { None } }, operator: op(r.below(8) as usize), range_list: RangeList((0..n).map(|_| item(r)).collect()) }
}
fn cond(r: &mut Rng) -> Condition { let n = count(r); Condition((0..n).map(|_| { let m = count(r).min(5); AndCondition((0..m).map(|_| rel(r)).collect()) }).collect()) }
fn dec(r: &mut Rng) -> DecimalValue { DecimalValue { integer: val(r), decimal: if r.chance(1, 2) { Some(val(r)) } else { None } } }
fn srange(r: &mut Rng) -> SampleRange { SampleRange { lower_val: dec(r), upper_val: if r.chance(1, 2) { Some(dec(r)) } else { None } } }
fn slist(r: &mut Rng) -> Option<SampleList> { if r.chance(1, 4) { return None; } let n = count(r); Some(SampleList { sample_ranges: (0..n).map(|_| srange(r)).collect(), ellipsis: r.chance(1, 2) }) }
fn rule(r: &mut Rng) -> Rule { Rule { condition: cond(r), samples: if r.chance(1, 3) { None } else { Some(Samples { integer: slist(r), decimal: slist(r) }) } } }
fn long(r: &mut Rng, level: u64) -> Rule {
    let n = *r.pick(&[63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025]) as usize;
    let mut a = Rule { condition: Condition(vec![AndCondition(vec![rel(r)])]), samples: Some(Samples { integer: slist(r), decimal: slist(r) }) };
    match level {
        0 => a.condition.0 = (0..n).map(|_| AndCondition(vec![rel(r)])).collect(),
        1 => a.condition.0[0].0 = (0..n).map(|_| rel(r)).collect(),
        2 => a.condition.0[0].0[0].range_list.0 = (0..n).map(|_| item(r)).collect(),
        k => { let l = Some(SampleList { sample_ranges: (0..n).map(|_| srange(r)).collect(), ellipsis: r.chance(1, 2) }); let s = a.samples.as_mut().unwrap(); if k == 3 { s.integer = l } else { s.decimal = l } }
    }
    a
}

/// Changes exactly the k-th place; places are counted in the order of the text.
struct Mut<'a> { left: i64, r: &'a mut Rng, what: &'static str }
impl Mut<'_> {
    fn hit(&mut self, what: &'static str) -> bool { self.left -= 1; if self.left == -1 { self.what = what; true } else { false } }
    fn value(&mut self, v: &mut Value, what: &'static str) { if self.hit(what) { v.0 = match self.r.below(6) { 0 => v.0 ^ (1 << self.r.below(usize::BITS as u64)), 1 => v.0.wrapping_add(1 << 32), 2 => v.0.wrapping_sub(1), 3 => v.0 ^ (1 << (usize::BITS - 1)), _ => v.0.wrapping_add(1) }; } }
    fn list<T: Clone>(&mut self, v: &mut Vec<T>, new: impl Fn(&mut Rng) -> T, what: &'static str) {
        if self.hit(what) {
            match self.r.below(5) {
                0 if !v.is_empty() => { v.pop(); }
                1 if !v.is_empty() => { v.remove(0); }
                2 if v.len() > 1 => { let k = self.r.below(v.len() as u64 - 1) as usize; v.swap(k, k + 1); }
                3 if !v.is_empty() => { let x = v[v.len() - 1].clone(); v.push(x); }
                _ => { let x = new(self.r); let k = self.r.below(v.len() as u64 + 1) as usize; v.insert(k, x); }
            }
        }
    }
    fn relation(&mut self, r: &mut Relation) {
        if self.hit("operand") { r.expression.operand = opnd(opnd_no(&r.expression.operand) + 1 + self.r.below(5) as usize); }
        if self.hit("modulus") { r.expression.modulus = match r.expression.modulus.take() { None => Some(Modulo(Value(*self.r.pick(&[0, 1, 10])))), Some(_) => None }; }
        if let Some(m) = &mut r.expression.modulus { self.value(&mut m.0, "modulus value"); }
        if self.hit("operator") { r.operator = op(op_no(&r.operator) + 1 + self.r.below(7) as usize); }
        self.list(&mut r.range_list.0, item, "range list");
        for i in &mut r.range_list.0 {
            if self.hit("kind of item") { *i = match i.clone() { RangeListItem::Value(v) => RangeListItem::Range(Range { lower_val: v.clone(), upper_val: v }), RangeListItem::Range(x) => RangeListItem::Value(if self.r.chance(1, 2) { x.lower_val } else { x.upper_val }) }; }
            match i { RangeListItem::Value(v) => self.value(v, "value"), RangeListItem::Range(x) => { self.value(&mut x.lower_val, "lower bound"); self.value(&mut x.upper_val, "upper bound"); } }
        }
    }
    fn decimal(&mut self, d: &mut DecimalValue) {
        self.value(&mut d.integer, "sample integer");
        if self.hit("sample fraction") { d.decimal = match d.decimal.take() { None => Some(Value(0)), Some(_) => None }; }
        if let Some(v) = &mut d.decimal { self.value(v, "sample fraction value"); }
    }
    fn samples(&mut self, l: &mut Option<SampleList>, what: &'static str) {
        if self.hit(what) { *l = match l.take() { None => Some(SampleList { sample_ranges: vec![], ellipsis: false }), Some(_) => None }; }
        if let Some(l) = l {
            if self.hit("ellipsis") { l.ellipsis = !l.ellipsis; }
            self.list(&mut l.sample_ranges, srange, "sample list");
            for s in &mut l.sample_ranges {
                self.decimal(&mut s.lower_val);
                if self.hit("upper sample") { s.upper_val = match s.upper_val.take() { None => Some(s.lower_val.clone()), Some(_) => None }; }
                if let Some(d) = &mut s.upper_val { self.decimal(d); }
            }
        }
    }
    fn rule(&mut self, r: &mut Rule) {
        self.list(&mut r.condition.0, |r| AndCondition(vec![rel(r)]), "or");
        for a in &mut r.condition.0 { self.list(&mut a.0, rel, "and"); for x in &mut a.0 { self.relation(x); } }
        if self.hit("samples") { r.samples = match r.samples.take() { None => Some(Samples { integer: None, decimal: None }), Some(_) => None }; }
        if let Some(s) = &mut r.samples { self.samples(&mut s.integer, "@integer"); self.samples(&mut s.decimal, "@decimal"); if self.hit("lists swapped") { std::mem::swap(&mut s.integer, &mut s.decimal); } }
    }
}
/// Compares two values with every operator, against what their parts say.
fn compare<T: PartialEq + std::fmt::Debug + Clone>(a: &T, b: &T, same: bool, bad: &mut Vec<String>) {
    let (x, y) = (format!("{:?}", a), format!("{:?}", b));
    if (a == b) != same || (b == a) != same { bad.push(format!("{} values compare {}: {} and {}", if same { "equal" } else { "different" }, if same { "different" } else { "equal" }, clip(&x), clip(&y))); }
    if (a != b) == same || (b != a) == same { bad.push(format!("!= contradicts the parts of {} and {}", clip(&x), clip(&y))); }
    if (x == y) != same { bad.push(format!("{} values are printed {}: {}", if same { "equal" } else { "different" }, if same { "differently" } else { "alike" }, clip(&x))); }
}
pub fn c22(env: &Env) -> ! {
    let mut rep = Report::new(env, "C22");
    let chunks: Vec<u64> = (0..64).collect();
    let per = env.scale(100, 3000);
    let outs = par(&chunks, |_, ch| {
        let mut sub = Report::new(env, "C22");
        let mut seen: std::collections::BTreeMap<&'static str, u64> = Default::default();
        let mut d = Distinct::default();
        let mut r = Rng::new(env.seed, &format!("C22/{}", ch));
        for k in 0..per {
            let state = r.clone();
            // now and then one level is long
            let make = |r: &mut Rng| if k % 33 == 7 { long(r, (ch + k / 33) % 5) } else { rule(r) };
            let a = make(&mut r);
            let again = make(&mut state.clone());
            let sa = sig(&a);
            let mut bad = Vec::new();
            compare(&a, &again, true, &mut bad);
            let c = a.clone();
            if sig(&c) != sa { bad.push(format!("a clone differs from {:?}", a)); }
            compare(&a, &c, true, &mut bad);
            // every place, or some of the many
            let mut probe = a.clone();
            let mut m = Mut { left: i64::MAX, r: &mut r, what: "" };
            m.rule(&mut probe);
            let places = i64::MAX - m.left;
            for p in 0..places {
                if places > 60 && p % (places / 40) != (k as i64) % (places / 40) { continue; }
                let mut b = a.clone();
                let mut m = Mut { left: p, r: &mut r, what: "" };
                m.rule(&mut b);
                let what = m.what;
                let sb = sig(&b);
                // the original of a changed clone stays as it was
                if sig(&a) != sa { bad.push(format!("changing a clone ({}) changed {:?}", what, again)); break; }
                sub.evaluations += 1;
                *seen.entry(what).or_insert(0) += 1;
                d.add(&(&sa, &sb));
                let same = sa == sb;
                compare(&a, &b, same, &mut bad);
                if p % 16 == 0 && (format!("{:#?}", a) == format!("{:#?}", b)) != same { bad.push(format!("{:?} and {:?} are confused in the long text form", a, b)); }
                compare(&a.condition, &b.condition, { let (mut x, mut y) = (vec![], vec![]); sig_cond(&a.condition, &mut x); sig_cond(&b.condition, &mut y); x == y }, &mut bad);
                if let (Some(x), Some(y)) = (a.condition.0.first().and_then(|c| c.0.first()), b.condition.0.first().and_then(|c| c.0.first())) { let (mut s, mut t) = (vec![], vec![]); sig_rel(x, &mut s); sig_rel(y, &mut t); compare(x, y, s == t, &mut bad); }
                // the parts by themselves
                for (x, y) in a.condition.0.iter().zip(&b.condition.0) {
                    let of = |c: &AndCondition| { let mut s = vec![]; sig_cond(&Condition(vec![c.clone()]), &mut s); s };
                    compare(x, y, of(x) == of(y), &mut bad);
                    for (x, y) in x.0.iter().zip(&y.0) {
                        let of = |r: &Relation| { let mut s = vec![]; sig_rel(r, &mut s); s };
                        if of(x) == of(y) { continue; }
                        let e = |r: &Relation| (opnd_no(&r.expression.operand), r.expression.modulus.as_ref().map(|m| (m.0).0));
                        compare(&x.expression, &y.expression, e(x) == e(y), &mut bad);
                        let l = |r: &Relation| of(&Relation { expression: Expression { operand: Operand::N, modulus: None }, operator: Operator::Is, range_list: r.range_list.clone() });
                        compare(&x.range_list, &y.range_list, l(x) == l(y), &mut bad);
                        for (x, y) in x.range_list.0.iter().zip(&y.range_list.0) {
                            let i = |i: &RangeListItem| match i { RangeListItem::Value(v) => (v.0, None), RangeListItem::Range(x) => (x.lower_val.0, Some(x.upper_val.0)) };
                            compare(x, y, i(x) == i(y), &mut bad);
                            match (x, y) {
                                (RangeListItem::Value(x), RangeListItem::Value(y)) => compare(x, y, x.0 == y.0, &mut bad),
                                (RangeListItem::Range(v), RangeListItem::Range(w)) => compare(v, w, i(x) == i(y), &mut bad),
                                _ => {}
                            }
                        }
                    }
                }
                if let (Some(x), Some(y)) = (&a.samples, &b.samples) {
                    let l = |l: &Option<SampleList>| { let mut s = vec![]; sig_list(l, &mut s); s };
                    compare(x, y, l(&x.integer) == l(&y.integer) && l(&x.decimal) == l(&y.decimal), &mut bad);
                    for (x, y) in [(&x.integer, &y.integer), (&x.decimal, &y.decimal), (&x.integer, &x.decimal)] {
                        let (Some(x), Some(y)) = (x, y) else { continue };
                        compare(x, y, l(&Some(x.clone())) == l(&Some(y.clone())), &mut bad);
                        for (x, y) in x.sample_ranges.iter().zip(&y.sample_ranges) {
                            let d = |d: &DecimalValue| (d.integer.0, d.decimal.as_ref().map(|v| v.0));
                            compare(x, y, d(&x.lower_val) == d(&y.lower_val) && x.upper_val.as_ref().map(d) == y.upper_val.as_ref().map(d), &mut bad);
                            compare(&x.lower_val, &y.lower_val, d(&x.lower_val) == d(&y.lower_val), &mut bad);
                        }
                    }
                }
                let mut into = b.clone();
                into.clone_from(&a);
                if sig(&into) != sa { bad.push(format!("clone_from over {:?} gives {:?} for {:?}", b, into, a)); }
                if bad.len() > 3 { break; }
            }
            for t in bad { sub.violate(t, json!(["ast", ch, k])); }
            if k == 5 && *ch < 6 { sub.sample(json!(clip(&format!("{:?}", a)))); }
        }
        // operands: one part changed at a time
        let special: [u64; 14] = [0, 1, 2, 9, 10, 100, 255, 256, 65536, u32::MAX as u64, 1 << 32, 1 << 53, u64::MAX - 1, u64::MAX];
        for _ in 0..per * 10 {
            let int = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&special) } else { r.mag() };
            let flt = |r: &mut Rng| match r.below(4) { 0 => *r.pick(&[0.0, -0.0, 1.0, 0.1, 1e300, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324]), 1 => f64::from_bits(r.next()), 2 => r.mag() as f64, _ => r.below(1000) as f64 / 100.0 };
            let p: (f64, [u64; 5]) = (flt(&mut r), [int(&mut r), int(&mut r), int(&mut r), int(&mut r), int(&mut r)]);
            let mut q = p;
            let at = r.below(8);
            match at {
                0 => q.0 = if r.chance(1, 2) { f64::from_bits(p.0.to_bits() ^ (1 << r.below(64))) } else { flt(&mut r) },
                1..=5 => { let k = at as usize - 1; q.1[k] = if r.chance(1, 2) { p.1[k] ^ (1 << r.below(64)) } else { int(&mut r) } }
                6 => { let (x, y) = (r.below(5) as usize, r.below(5) as usize); q.1.swap(x, y); }
                _ => {}
            }
            let mk = |p: &(f64, [u64; 5])| PluralOperands { n: p.0, i: p.1[0], v: p.1[1] as usize, w: p.1[2] as usize, f: p.1[3], t: p.1[4] };
            let same = p.0 == q.0 && p.1 == q.1;
            let (a, b) = (mk(&p), mk(&q));
            sub.evaluations += 1;
            *seen.entry(if same { "equal operands" } else { "different operands" }).or_insert(0) += 1;
            d.add(&(p.0.to_bits(), p.1, q.0.to_bits(), q.1));
            if (a == b) != same || (b == a) != same || (a != b) == same { sub.violate(format!("{:?} and {:?} compare {}", a, b, if same { "different" } else { "equal" }), json!(["operands", format!("{:?}", a), format!("{:?}", b)])); }
            if !same && !(p.0.is_nan() && q.0.is_nan()) && format!("{:?}", a) == format!("{:?}", b) { sub.violate(format!("different operands are printed alike: {:?}", a), json!(["operands", format!("{:?}", a)])); }
        }
        (sub, seen, d)
    });
    let mut seen: std::collections::BTreeMap<&'static str, u64> = Default::default();
    let mut d = Distinct::default();
    for (s, k, x) in outs {
        rep.evaluations += s.evaluations;
        rep.total_violations += s.total_violations;
        if rep.violations.len() < 20 { rep.violations.extend(s.violations); }
        for s in s.samples { rep.sample(s); }
        for (a, b) in k { *seen.entry(a).or_insert(0) += b; }
        d.merge(x);
    }
    // the enums, in full
    let cats = [PluralCategory::ZERO, PluralCategory::ONE, PluralCategory::TWO, PluralCategory::FEW, PluralCategory::MANY, PluralCategory::OTHER];
    for (x, a) in cats.iter().enumerate() { for (y, b) in cats.iter().enumerate() {
        rep.evaluations += 1;
        if (a == b) != (x == y) || (a != b) == (x == y) || (format!("{:?}", a) == format!("{:?}", b)) != (x == y) { rep.violate(format!("categories {:?} and {:?} are confused", a, b), json!(["category", x, y])); }
    } }
    let types = [PluralRuleType::CARDINAL, PluralRuleType::ORDINAL];
    let hash = |t: &PluralRuleType| { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() };
    for (x, a) in types.iter().enumerate() { for (y, b) in types.iter().enumerate() {
        rep.evaluations += 1;
        let (c, e) = (*a, Clone::clone(b));
        if (a == b) != (x == y) || (c == e) != (x == y) || (a != b) == (x == y) || x == y && hash(a) != hash(&e) { rep.violate(format!("rule types {} and {} are confused", x, y), json!(["type", x, y])); }
    } }
    for (x, a) in (0..OPNDS).map(|k| (k, opnd(k))) { for (y, b) in (0..OPNDS).map(|k| (k, opnd(k))) { let mut bad = vec![]; rep.evaluations += 1; compare(&a, &b, x == y, &mut bad); if opnd_no(&a.clone()) != x { bad.push(format!("a clone of {:?} is another operand", a)); } for t in bad { rep.violate(t, json!(["operand", x, y])); } } }
    for (x, a) in (0..OPS).map(|k| (k, op(k))) { for (y, b) in (0..OPS).map(|k| (k, op(k))) { let mut bad = vec![]; rep.evaluations += 1; compare(&a, &b, x == y, &mut bad); if op_no(&a.clone()) != x { bad.push(format!("a clone of {:?} is another operator", a)); } for t in bad { rep.violate(t, json!(["operator", x, y])); } } }
    rep.put("places_changed", json!(seen));
    rep.distinct = d.len();
    if seen.len() < 20 { rep.inconclusive.push(format!("only {} kinds of places were changed", seen.len())); }
    rep.rule = "random ASTs, the same again from the same seed, clones, and copies changed in exactly one place (each place in turn), compared with ==, !=, Debug and clone_from against an encoding read from the public fields; operands changed in one part; the enums in full; distinct counts pairs of different encodings".into();
    rep.finish(env)
}
