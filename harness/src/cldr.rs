//! The pinned copy of the CLDR 37 data that serves as the oracle for the shipped rules.
use crate::dec::{Dec, Ops};
use crate::refsem::*;

/// Category order of the generated code (alphabetical), used by the model of known findings.
pub const CATS: [&str; 6] = ["zero", "one", "two", "few", "many", "other"];
pub const OTHER: u8 = 5;
pub fn cat_index(name: &str) -> Option<u8> {
    CATS.iter().position(|c| *c == name).map(|p| p as u8)
}

#[derive(Clone, Debug, Default)]
pub struct Locale {
    pub name: String,
    /// (category, condition) without `other`
    pub rules: Vec<(u8, Cond)>,
    /// (category, sample number)
    pub samples: Vec<(u8, Dec)>,
}
impl Locale {
    /// All categories whose condition the number satisfies.
    pub fn matching(&self, x: &Ops) -> Vec<u8> {
        self.rules.iter().filter(|(_, c)| eval_cond(c, x)).map(|(k, _)| *k).collect()
    }
    /// The category by CLDR; rules of real data are disjoint (checked on load of the samples).
    pub fn spec(&self, x: &Ops) -> u8 {
        for (k, c) in &self.rules {
            if eval_cond(c, x) { return *k; }
        }
        OTHER
    }
    /// First match in generated order, with the listed relations evaluated "as generated".
    pub fn with_quirks(&self, x: &Ops, listed: &dyn Fn(u8, &Rel) -> bool) -> u8 {
        let mut order: Vec<&(u8, Cond)> = self.rules.iter().collect();
        order.sort_by_key(|(k, _)| CATS[*k as usize]);
        for (k, c) in order {
            let hit = c.iter().any(|a| a.iter().all(|r| if listed(*k, r) { eval_rel_quirk(r, x) } else { eval_rel(r, x) }));
            if hit { return *k; }
        }
        OTHER
    }
    pub fn relations(&self) -> Vec<&Rel> {
        self.rules.iter().flat_map(|(_, c)| c.iter().flatten()).collect()
    }
}
pub struct Cldr { pub version: String, pub cardinal: Vec<Locale>, pub ordinal: Vec<Locale> }

fn step(s: &SampleVal) -> Dec {
    Dec::new(s.int, s.frac.as_deref().unwrap_or(""))
}
/// Expands `a~b`: all numbers with the digits of `a` from a to b.
fn expand(a: &SampleVal, b: &SampleVal) -> Vec<Dec> {
    let fd = a.frac.as_ref().map(|f| f.len()).unwrap_or(0);
    assert_eq!(fd, b.frac.as_ref().map(|f| f.len()).unwrap_or(0), "sample range with different digits");
    let scale = 10u64.pow(fd as u32);
    let num = |s: &SampleVal| s.int * scale + s.frac.as_ref().map(|f| f.parse::<u64>().unwrap()).unwrap_or(0);
    (num(a)..=num(b)).map(|x| {
        let f = if fd == 0 { String::new() } else { format!("{:0w$}", x % scale, w = fd) };
        Dec::new(x / scale, &f)
    }).collect()
}
pub fn load(root: &str) -> Cldr {
    let mut out = Cldr { version: String::new(), cardinal: vec![], ordinal: vec![] };
    for (file, key) in [("cldr37_cardinals.json", "plurals-type-cardinal"), ("cldr37_ordinals.json", "plurals-type-ordinal")] {
        let txt = std::fs::read_to_string(format!("{}/data/{}", root, file)).expect("pinned data");
        let j: serde_json::Value = serde_json::from_str(&txt).expect("pinned data");
        out.version = j["supplemental"]["version"]["_cldrVersion"].as_str().unwrap().to_string();
        let mut locs = Vec::new();
        for (name, rules) in j["supplemental"][key].as_object().unwrap() {
            if name == "root" { continue; }
            let mut l = Locale { name: name.clone(), ..Default::default() };
            for (k, t) in rules.as_object().unwrap() {
                let cat = cat_index(k.rsplit('-').next().unwrap()).unwrap();
                let r = parse_rule(t.as_str().unwrap()).unwrap_or_else(|| panic!("pinned rule {} {}", name, t));
                for sl in [&r.integer, &r.decimal].into_iter().flatten() {
                    for (a, b) in &sl.ranges {
                        match b {
                            None => l.samples.push((cat, step(a))),
                            Some(b) => l.samples.extend(expand(a, b).into_iter().map(|d| (cat, d))),
                        }
                    }
                }
                if cat != OTHER { l.rules.push((cat, r.cond)); }
            }
            locs.push(l);
        }
        if key.ends_with("cardinal") { out.cardinal = locs } else { out.ordinal = locs }
    }
    // The oracle must agree with CLDR's own samples, or it is the oracle that is wrong.
    for l in out.cardinal.iter().chain(&out.ordinal) {
        for (c, d) in &l.samples {
            let m = l.matching(&d.ops().unwrap());
            let want: Vec<u8> = if *c == OTHER { vec![] } else { vec![*c] };
            assert_eq!(m, want, "reference evaluator disagrees with CLDR sample {} {}", l.name, d.text());
        }
    }
    out
}
/// All (locale/category, rule text) of the pinned data.
pub fn load_texts(root: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for (file, key) in [("cldr37_cardinals.json", "plurals-type-cardinal"), ("cldr37_ordinals.json", "plurals-type-ordinal")] {
        let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(format!("{}/data/{}", root, file)).expect("pinned data")).expect("pinned data");
        for (name, rules) in j["supplemental"][key].as_object().unwrap() {
            for (k, t) in rules.as_object().unwrap() { out.push((format!("{}/{}", name, k), t.as_str().unwrap().to_string())); }
        }
    }
    out
}
