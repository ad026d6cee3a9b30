//! Independent implementation of UTS 35 plural rules: syntax, exact evaluation, and the model of
//! the recorded defects ("as generated") used only to recognise known findings.
use crate::dec::Ops;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Opnd { N, I, V, W, F, T }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op { In, NotIn, Within, NotWithin, Is, IsNot, Eq, Ne }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Item { Val(u64), Range(u64, u64) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rel { pub opnd: Opnd, pub modulus: Option<u64>, pub op: Op, pub list: Vec<Item> }
/// or of ands
pub type Cond = Vec<Vec<Rel>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SampleVal { pub int: u64, pub frac: Option<String> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SampleList { pub ranges: Vec<(SampleVal, Option<SampleVal>)>, pub ellipsis: bool }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RuleText { pub cond: Cond, pub integer: Option<SampleList>, pub decimal: Option<SampleList> }

impl Opnd {
    pub const ALL: [Opnd; 6] = [Opnd::N, Opnd::I, Opnd::V, Opnd::W, Opnd::F, Opnd::T];
    pub fn ch(self) -> char {
        match self { Opnd::N => 'n', Opnd::I => 'i', Opnd::V => 'v', Opnd::W => 'w', Opnd::F => 'f', Opnd::T => 't' }
    }
}
impl Op {
    pub const ALL: [Op; 8] = [Op::In, Op::NotIn, Op::Within, Op::NotWithin, Op::Is, Op::IsNot, Op::Eq, Op::Ne];
    pub fn negated(self) -> bool { matches!(self, Op::NotIn | Op::NotWithin | Op::IsNot | Op::Ne) }
    pub fn within(self) -> bool { matches!(self, Op::Within | Op::NotWithin) }
    pub fn words(self) -> &'static [&'static str] {
        match self {
            Op::In => &["in"], Op::NotIn => &["not", "in"], Op::Within => &["within"], Op::NotWithin => &["not", "within"],
            Op::Is => &["is"], Op::IsNot => &["is", "not"], Op::Eq => &["="], Op::Ne => &["!="],
        }
    }
}
impl Item {
    pub fn bounds(self) -> (u64, u64) {
        match self { Item::Val(v) => (v, v), Item::Range(a, b) => (a, b) }
    }
    pub fn text(self) -> String {
        match self { Item::Val(v) => v.to_string(), Item::Range(a, b) => format!("{}..{}", a, b) }
    }
}
impl Rel {
    pub fn text(&self) -> String {
        let m = self.modulus.map(|m| format!(" % {}", m)).unwrap_or_default();
        let l: Vec<String> = self.list.iter().map(|i| i.text()).collect();
        format!("{}{} {} {}", self.opnd.ch(), m, self.op.words().join(" "), l.join(","))
    }
}
pub fn cond_text(c: &Cond) -> String {
    c.iter().map(|a| a.iter().map(|r| r.text()).collect::<Vec<_>>().join(" and ")).collect::<Vec<_>>().join(" or ")
}

// ---------------------------------------------------------------- exact evaluation

/// The operand as integer part plus "has a non-zero fraction".
fn value(o: Opnd, x: &Ops) -> (u64, bool) {
    match o {
        Opnd::N => (x.i, x.t != 0),
        Opnd::I => (x.i, false),
        Opnd::V => (x.v as u64, false),
        Opnd::W => (x.w as u64, false),
        Opnd::F => (x.f, false),
        Opnd::T => (x.t, false),
    }
}
pub fn eval_rel(r: &Rel, x: &Ops) -> bool {
    let (mut a, frac) = value(r.opnd, x);
    if let Some(m) = r.modulus {
        a %= m;
    }
    let hit = r.list.iter().any(|it| {
        let (lo, hi) = it.bounds();
        if r.op.within() {
            lo <= a && (a < hi || (a == hi && !frac))
        } else {
            !frac && lo <= a && a <= hi
        }
    });
    hit != r.op.negated()
}
/// As `eval_cond`, with values of n compared with the operand n itself (relations of n must list values only, without modulus).
pub fn eval_literal(c: &Cond, x: &Ops) -> bool {
    c.iter().any(|a| a.iter().all(|r| if r.opnd == Opnd::N { r.list.iter().any(|it| x.n == it.bounds().0 as f64) != r.op.negated() } else { eval_rel(r, x) }))
}
/// What the generator of this repository emits for a relation, where that is a recorded defect.
pub fn eval_rel_quirk(r: &Rel, x: &Ops) -> bool {
    let (a, _) = value(r.opnd, x);
    let neg = r.op.negated();
    let mut out: Vec<bool> = Vec::new();
    for it in &r.list {
        let (lo, hi) = it.bounds();
        let b = if r.op.within() {
            let (y, fr) = match r.modulus {
                Some(m) => (a % m, false),
                None => value(r.opnd, x),
            };
            if neg {
                lo > y && (y > hi || (y == hi && fr))
            } else {
                lo <= y && (y < hi || (y == hi && !fr))
            }
        } else if let (Opnd::N, Item::Val(v)) = (r.opnd, *it) {
            match r.modulus {
                Some(m) => (a % m == v) != neg,
                None => (x.t == 0 && a == v) != neg,
            }
        } else if let (Opnd::N, Item::Range(lo, hi)) = (r.opnd, *it) {
            let c = (lo <= a && a <= hi) != neg;
            match r.modulus {
                Some(_) => c,
                None => c && x.f == 0,
            }
        } else {
            let y = r.modulus.map(|m| a % m).unwrap_or(a);
            (lo <= y && y <= hi) != neg
        };
        out.push(b);
    }
    if neg { out.iter().all(|b| *b) } else { out.iter().any(|b| *b) }
}
pub fn eval_cond(c: &Cond, x: &Ops) -> bool {
    c.iter().any(|a| a.iter().all(|r| eval_rel(r, x)))
}

// ---------------------------------------------------------------- syntax

pub struct P<'a> { s: &'a [char], p: usize }
impl<'a> P<'a> {
    fn ws(&mut self) -> usize {
        let a = self.p;
        while self.p < self.s.len() && (self.s[self.p] == ' ' || self.s[self.p] == '\t') { self.p += 1; }
        self.p - a
    }
    fn lit(&mut self, l: &str) -> bool {
        let l: Vec<char> = l.chars().collect();
        if self.s[self.p..].starts_with(&l) { self.p += l.len(); true } else { false }
    }
    fn digits(&mut self) -> Option<String> {
        let a = self.p;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { self.p += 1; }
        if self.p == a { None } else { Some(self.s[a..self.p].iter().collect()) }
    }
    fn num(&mut self) -> Option<u64> {
        let d = self.digits()?;
        crate::dec::digits_u64(&d)
    }
    fn rel(&mut self) -> Option<Rel> {
        let c = *self.s.get(self.p)?;
        let opnd = *Opnd::ALL.iter().find(|o| o.ch() == c)?;
        self.p += 1;
        let save = self.p;
        self.ws();
        let modulus = if self.lit("%") || self.lit("mod") {
            self.ws();
            Some(self.num()?)
        } else {
            self.p = save;
            None
        };
        self.ws();
        let op = if self.lit("=") { Op::Eq }
            else if self.lit("!=") { Op::Ne }
            else if self.lit("not") {
                if self.ws() == 0 { return None; }
                if self.lit("within") { Op::NotWithin } else if self.lit("in") { Op::NotIn } else { return None; }
            }
            else if self.lit("within") { Op::Within }
            else if self.lit("in") { Op::In }
            else if self.lit("is") {
                if self.ws() == 0 { return None; }
                if self.lit("not") { Op::IsNot } else { Op::Is }
            }
            else { return None };
        self.ws();
        let mut list = Vec::new();
        loop {
            let a = self.num()?;
            if self.lit("..") { list.push(Item::Range(a, self.num()?)); } else { list.push(Item::Val(a)); }
            let save = self.p;
            self.ws();
            if self.lit(",") { self.ws(); } else { self.p = save; break; }
        }
        Some(Rel { opnd, modulus, op, list })
    }
    fn cond(&mut self) -> Option<Cond> {
        let mut c = vec![vec![self.rel()?]];
        loop {
            let save = self.p;
            if self.ws() == 0 { return Some(c); }
            let or = self.lit("or");
            if !or && !self.lit("and") { self.p = save; return Some(c); }
            if self.ws() == 0 { return None; }
            let r = self.rel()?;
            if or { c.push(vec![r]) } else { c.last_mut().unwrap().push(r) }
        }
    }
    fn sval(&mut self) -> Option<SampleVal> {
        let int = self.num()?;
        let frac = if self.p + 1 < self.s.len() && self.s[self.p] == '.' && self.s[self.p + 1].is_ascii_digit() {
            self.p += 1;
            let d = self.digits()?;
            crate::dec::digits_u64(&d)?;
            Some(d)
        } else { None };
        Some(SampleVal { int, frac })
    }
    fn slist(&mut self) -> Option<SampleList> {
        let mut l = SampleList { ranges: vec![], ellipsis: false };
        loop {
            let a = self.sval()?;
            let save = self.p;
            self.ws();
            let b = if self.lit("~") { self.ws(); Some(self.sval()?) } else { self.p = save; None };
            l.ranges.push((a, b));
            let save = self.p;
            self.ws();
            if !self.lit(",") { self.p = save; return Some(l); }
            self.ws();
            if self.lit("...") || self.lit("…") { l.ellipsis = true; return Some(l); }
        }
    }
}
/// Strict reader of rule text: the grammar of UTS 35 with blanks between tokens.
pub fn parse_rule(text: &str) -> Option<RuleText> {
    let s: Vec<char> = text.chars().collect();
    let mut p = P { s: &s, p: 0 };
    let mut out = RuleText::default();
    if text.trim().is_empty() { return Some(out); }
    if !text.trim().starts_with('@') { out.cond = p.cond()?; }
    let save = p.p;
    p.ws();
    if p.lit("@integer") { p.ws(); out.integer = Some(p.slist()?); } else { p.p = save; }
    let save = p.p;
    p.ws();
    if p.lit("@decimal") { p.ws(); out.decimal = Some(p.slist()?); } else { p.p = save; }
    if p.p == s.len() { Some(out) } else { None }
}
