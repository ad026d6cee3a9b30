//! Number workloads: exhaustive small numbers, representation boundaries, boundaries of the
//! relations of the rules at hand, and random numbers of all magnitudes.
use crate::dec::*;
use crate::dict::dict;
use crate::refsem::*;
use crate::rng::Rng;
use std::collections::BTreeSet;

pub const FRACS: &[&str] = &[
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "00", "01", "02", "03", "04", "05", "09", "10", "11", "12", "13",
    "14", "15", "19", "20", "21", "22", "23", "24", "29", "30", "40", "50", "69", "71", "72", "79", "90", "91", "92", "99", "000", "001", "010",
    "011", "012", "100", "101", "102", "103", "104", "110", "111", "112", "120", "121", "200", "210", "211", "212", "0000", "0001", "0010", "1000", "1001",
    "1011", "1100", "00000", "10000", "00001", "000000", "100000", "000001", "111111", "1000000",
];
/// Machine and decimal boundaries.
pub fn boundary_ints() -> Vec<u64> {
    let mut s = BTreeSet::new();
    for k in 0..64u32 {
        let p = 1u64 << k;
        for d in 0..3 {
            s.insert(p.saturating_sub(d));
            s.insert(p.saturating_add(d));
        }
    }
    let mut p = 1u64;
    for _ in 0..20 {
        for mul in 1..=9u64 {
            if let Some(b) = p.checked_mul(mul) {
                for d in 0..=24 {
                    if let Some(x) = b.checked_add(d) { s.insert(x); }
                    if d < 4 { s.insert(b.saturating_sub(d)); }
                }
            }
        }
        match p.checked_mul(10) { Some(q) => p = q, None => break }
    }
    for d in 0..200 { s.insert(u64::MAX - d); }
    s.into_iter().collect()
}
/// A random decimal of the domain.
pub fn random_dec(r: &mut Rng) -> Dec {
    loop {
        let i = match r.below(6) {
            0 => r.below(10),
            1 => r.below(130),
            2 => r.below(10_000),
            3 => { let k = r.below(19) as u32; r.below(9).wrapping_add(1) * 10u64.pow(k) + r.below(130) }
            4 => r.mag(),
            _ => { let k = 1 + r.below(15) as u32; r.below(10u64.pow(k)) }
        };
        let frac = match r.below(6) {
            0 | 1 => String::new(),
            2 => r.pick(FRACS).to_string(),
            3 => "0".repeat(1 + r.below(20) as usize),
            4 => { let n = 1 + r.below(6) as usize; (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() }
            _ => {
                let n = 1 + r.below(14) as usize;
                let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                s.push_str(&"0".repeat(r.below(5) as usize));
                s
            }
        };
        let d = Dec::new(i, &frac);
        if d.in_domain() { return d; }
    }
}
fn frac_with_value(r: &mut Rng, x: u64) -> String {
    let s = x.to_string();
    let pad = if r.chance(1, 2) { 0 } else { r.below(4) as usize };
    format!("{}{}", "0".repeat(pad), s)
}
/// Numbers at and around the boundaries of the given relations, at many multiples of the moduli.
pub fn directed(rels: &[&Rel], r: &mut Rng, per: usize) -> Vec<Dec> {
    let mut out = Vec::new();
    let fr = |r: &mut Rng| -> String { if r.chance(1, 2) { String::new() } else { r.pick(FRACS).to_string() } };
    for rel in rels {
        let mut xs = BTreeSet::new();
        for it in &rel.list {
            let (lo, hi) = it.bounds();
            for b in [lo, hi, lo / 2 + hi / 2] {
                for d in 0..=1 { xs.insert(b.saturating_add(d)); xs.insert(b.saturating_sub(d)); }
            }
        }
        xs.insert(0);
        if let Some(m) = rel.modulus { xs.insert(m.saturating_sub(1)); }
        for x in xs {
            for k in 0..per {
                let y = match rel.modulus {
                    Some(m) => {
                        let q = if k == 0 { 0 } else if k == 1 { 1 } else if r.chance(1, 2) { r.below(12) } else { r.mag() / m.max(1) };
                        match q.checked_mul(m).and_then(|q| q.checked_add(x)) { Some(y) => y, None => continue }
                    }
                    None => x,
                };
                let d = match rel.opnd {
                    Opnd::N | Opnd::I => { let f = fr(r); Dec::new(y, &f) }
                    Opnd::V => {
                        if y > 60 { continue; }
                        let mut f: String = (0..y).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                        if r.chance(1, 3) { f = "0".repeat(y as usize); }
                        Dec::new(r.below(25), &f)
                    }
                    Opnd::W => {
                        if y > 12 { continue; }
                        let mut f: String = (0..y).map(|_| (b'1' + r.below(9) as u8) as char).collect();
                        f.push_str(&"0".repeat(r.below(4) as usize));
                        Dec::new(r.below(25), &f)
                    }
                    Opnd::F | Opnd::T => {
                        let mut f = frac_with_value(r, y);
                        if rel.opnd == Opnd::T && r.chance(1, 2) { f.push_str(&"0".repeat(r.below(4) as usize)); }
                        if rel.opnd == Opnd::F && r.chance(1, 4) { f = String::new(); }
                        let i = if r.chance(1, 2) { r.below(25) } else { r.below(1_000_000) };
                        Dec::new(i, &f)
                    }
                };
                if d.in_domain() { out.push(d); }
            }
        }
    }
    out
}
/// Combines the digit patterns of several relations in one number.
pub fn combined(rels: &[&Rel], r: &mut Rng, n: usize) -> Vec<Dec> {
    let mut out = Vec::new();
    if rels.is_empty() { return out; }
    let val = |r: &mut Rng, rel: &Rel| -> Option<u64> {
        let (lo, hi) = r.pick(&rel.list).bounds();
        let x = if hi > lo { lo + r.below(hi - lo + 1) } else { lo };
        let x = match r.below(5) { 0 => x.saturating_add(1), 1 => x.saturating_sub(1), _ => x };
        match rel.modulus {
            Some(m) => { let q = if r.chance(2, 3) { r.below(30) } else { r.mag() / m.max(1) }; q.checked_mul(m)?.checked_add(x) }
            None => Some(x),
        }
    };
    for _ in 0..n {
        let mut i = if r.chance(1, 2) { r.below(130) } else { r.mag() };
        let mut frac = if r.chance(1, 2) { String::new() } else { r.pick(FRACS).to_string() };
        for _ in 0..2 {
            let rel = *r.pick(rels);
            let y = match val(r, rel) { Some(y) => y, None => continue };
            match rel.opnd {
                Opnd::N | Opnd::I => i = y,
                Opnd::F => frac = frac_with_value(r, y),
                Opnd::T => { frac = frac_with_value(r, y); if r.chance(1, 2) { frac.push('0') } }
                Opnd::V => { if y <= 12 { frac = (0..y).map(|_| (b'0' + r.below(10) as u8) as char).collect() } }
                Opnd::W => { if y <= 12 { frac = (0..y).map(|_| (b'1' + r.below(9) as u8) as char).collect(); if r.chance(1, 2) { frac.push('0') } } }
            }
        }
        let d = Dec::new(i, &frac);
        if d.in_domain() { out.push(d); }
    }
    out
}
/// Numbers built from the literals of the sources: as value, as residue, as fraction, as its length.
pub fn from_dict(r: &mut Rng, qs: usize) -> Vec<Dec> {
    let d = dict();
    let mut v = Vec::new();
    for &x in &d.ints {
        for y in [x.saturating_sub(1), x, x.saturating_add(1)] {
            v.push(Dec::int(y));
            for f in ["0", "00", "5"] { v.push(Dec::new(y, f)); }
            let s = y.to_string();
            for i in [0u64, 1, 3] { for (a, b) in [("", ""), ("0", ""), ("", "0"), ("00", "00")] { v.push(Dec::new(i, &format!("{}{}{}", a, s, b))); } }
            if y > 0 && y <= 60 {
                let y = y as usize;
                v.push(Dec::new(2, &"0".repeat(y)));
                v.push(Dec::new(1, &format!("{}5", "0".repeat(y - 1))));
                if y <= 15 { v.push(Dec::new(0, &(0..y).map(|_| (b'1' + r.below(9) as u8) as char).collect::<String>())); }
            }
        }
        for &m in d.moduli.iter().chain(d.ints.iter().filter(|m| **m > 60 && **m < 20_000)).filter(|m| **m > x) {
            for q in 0..qs {
                let q = if q < 2 { q as u64 + 1 } else if r.chance(1, 2) { r.below(40) } else { r.mag() / m };
                if let Some(y) = q.checked_mul(m).and_then(|y| y.checked_add(x)) { v.push(Dec::int(y)); if r.chance(1, 4) { v.push(Dec::new(y, *r.pick(&["0", "1", "5", "00", "50"]))); } }
            }
        }
    }
    v.retain(|d| d.in_domain());
    v.sort();
    v.dedup();
    v
}
/// Fixed part shared by all locales.
pub fn common(upto: u64) -> Vec<Dec> {
    let mut v: Vec<Dec> = (0..=upto).map(Dec::int).collect();
    for i in 0..=130u64 {
        for f in FRACS { v.push(Dec::new(i, f)); }
    }
    for i in [131, 199, 200, 201, 211, 212, 300, 999, 1000, 1001, 1011, 1100, 10_000, 20_000, 99_999, 100_000, 999_999, 1_000_000, 1_000_001, 2_000_000, 1_000_000_000, 12_345_678] {
        for f in FRACS { v.push(Dec::new(i, f)); }
    }
    for b in boundary_ints() {
        v.push(Dec::int(b));
        for f in ["0", "00", "000", "1", "10", "5"] { v.push(Dec::new(b, f)); }
    }
    // every fraction value 0..=1099 with every width up to 5
    for f in 0..1100u64 {
        for w in 1..=5usize {
            let s = format!("{:0w$}", f, w = w);
            if s.len() == w { v.push(Dec::new(f % 3, &s)); }
        }
    }
    v.retain(|d| d.in_domain());
    v.sort();
    v.dedup();
    v
}

/// Numbers beyond so many bits on which a narrower type could show: per relation of the locale, numbers whose
/// category (or at least whose relation) changes when i, f or t is cut or clamped to that width.
pub fn wide(l: &crate::cldr::Locale, r: &mut Rng, per: usize, bits: u32, tries: usize) -> Vec<Dec> {
    let m_all = (1u64 << bits) - 1;
    let cut: [fn(u64, u64) -> u64; 4] = [|x, m| x & m, |x, m| x.min(m), |x, m| x & (m >> 1), |x, m| x.min(m >> 1)];
    let mut out = BTreeSet::new();
    let lift = |r: &mut Rng, m: u64| -> u64 { let q = r.mag() / m.max(1); if q > 0 { q } else { (2u64 << bits) / m.max(1) + r.below(100_000) } };
    for rel in l.relations() {
        let m = rel.modulus.unwrap_or(1);
        for c in cut {
            let (mut best, mut rest) = (BTreeSet::new(), BTreeSet::new());
            for _ in 0..tries {
                if best.len() >= per { break; }
                let (lo, hi) = r.pick(&rel.list).bounds();
                let x = lo + if hi > lo { r.below(hi - lo + 1) } else { 0 };
                // with a modulus: a multiple beyond the width plus the value; without: a number that the cut takes to the value
                let y = if rel.modulus.is_some() { lift(r, m).checked_mul(m).and_then(|y| y.checked_add(x)) } else { (1 + { let k = r.below(21); r.below(1 << k) }).checked_mul(1 << bits).and_then(|y| y.checked_add(x)) };
                let y = match y { Some(y) if y > m_all => y, _ => continue };
                let y = if r.chance(1, 4) { y ^ 1 } else { y };
                let f = if r.chance(2, 3) { String::new() } else { r.pick(FRACS).to_string() };
                let d = match rel.opnd {
                    Opnd::N | Opnd::I | Opnd::V | Opnd::W => Dec::new(y, &f),
                    Opnd::F | Opnd::T => { if y > 99_999_999_999_999 { continue; } Dec::new(r.below(4), &y.to_string()) }
                };
                if !d.in_domain() { continue; }
                let a = d.ops().unwrap();
                let mut b = a.clone();
                b.i = c(b.i, m_all); b.f = c(b.f, m_all); b.t = c(b.t, m_all);
                if b.i != a.i { b.n = b.i as f64 + (a.n - a.i as f64).max(0.0); }
                if l.spec(&a) != l.spec(&b) { best.insert(d); } else if eval_rel(rel, &a) != eval_rel(rel, &b) { rest.insert(d); }
            }
            let short = per - best.len().min(per);
            out.extend(best);
            out.extend(rest.into_iter().take(short));
        }
    }
    out.into_iter().collect()
}
