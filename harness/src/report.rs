//! Verdicts, known findings, evidence.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub struct Env { pub root: String, pub tier: String, pub seed: u64, pub work: String, pub cli: String }
impl Env {
    pub fn get() -> Env {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        Env {
            tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            work: std::env::var("VERIF_WORK").unwrap_or_else(|_| format!("{}/work", root)),
            cli: std::env::var("VERIF_CLI").unwrap_or_default(),
            root,
        }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 { if self.thorough() { thorough } else { quick } }
}
#[derive(Clone, Debug)]
pub struct Violation { pub summary: String, pub case: Value }

pub struct Report {
    pub prop: String,
    pub evaluations: u64,
    pub distinct: u64,
    pub rule: String,
    pub samples: Vec<Value>,
    pub extra: Map<String, Value>,
    pub violations: Vec<Violation>,
    pub total_violations: u64,
    pub known_hits: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
    pub inconclusive: Vec<String>,
    pub start: Instant,
    pub known: BTreeMap<String, (Vec<String>, String)>,
}
impl Report {
    pub fn new(env: &Env, prop: &str) -> Report {
        Report {
            prop: prop.into(), evaluations: 0, distinct: 0, rule: String::new(), samples: vec![], extra: Map::new(),
            violations: vec![], total_violations: 0, known_hits: BTreeMap::new(), assumptions: vec![], inconclusive: vec![],
            start: Instant::now(), known: load_known(env, prop),
        }
    }
    pub fn violate(&mut self, summary: String, case: Value) {
        self.total_violations += 1;
        if self.violations.len() < 20 { self.violations.push(Violation { summary, case }); }
    }
    pub fn known_hit(&mut self, key: &str) { *self.known_hits.entry(key.into()).or_insert(0) += 1; }
    pub fn sample(&mut self, v: Value) { if self.samples.len() < 12 { self.samples.push(v); } }
    pub fn put(&mut self, k: &str, v: Value) { self.extra.insert(k.into(), v); }
    /// Prints the verdict, writes the evidence and ends the process.
    pub fn finish(mut self, env: &Env) -> ! {
        let level = "exploration";
        for (k, n) in &self.known_hits {
            if let Some((_, text)) = self.known.get(k) {
                println!("KNOWN-FINDING: property={} {} [{}; observed {} times]", self.prop, text, k, n);
            }
        }
        let missing: Vec<&String> = self.known.keys().filter(|k| !self.known_hits.contains_key(*k)).collect();
        if !missing.is_empty() { self.extra.insert("known_findings_not_observed".into(), json!(missing)); }
        self.extra.insert("known_findings_observed".into(), json!(self.known_hits));
        if self.evaluations == 0 { self.inconclusive.push("no event was observed".into()); }
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        for (k, v) in &self.extra { cov.insert(k.clone(), v.clone()); }
        if !self.inconclusive.is_empty() { cov.insert("inconclusive".into(), json!(self.inconclusive)); }
        let ev = json!({
            "property": self.prop, "tier": env.tier, "seed": env.seed, "level": level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": self.total_violations,
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", env.root));
        std::fs::write(format!("{}/evidence/{}.json", env.root, self.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        if self.total_violations > 0 {
            let dir = format!("{}/work/replay", env.root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}-{}.json", dir, self.prop, env.tier, env.seed);
            let cases: Vec<Value> = self.violations.iter().map(|v| json!({"summary": v.summary, "case": v.case})).collect();
            let body = json!({"property": self.prop, "tier": env.tier, "seed": env.seed, "violations": self.total_violations, "cases": cases,
                "replay": format!("cd {} && ./check {} --replay {}   (or rerun the check with the same VERIF_SEED)", env.root, self.prop, path)});
            std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("replay");
            for v in self.violations.iter().take(8) { println!("  {}", v.summary); }
            println!("VIOLATION property={} replay={}", self.prop, path);
            std::process::exit(1);
        }
        if !self.inconclusive.is_empty() {
            for m in &self.inconclusive { println!("INCONCLUSIVE property={} {}", self.prop, m); }
            std::process::exit(2);
        }
        println!("HELD property={} on {} evaluations ({} distinct non-trivial) in {:.1}s", self.prop, self.evaluations, self.distinct, self.start.elapsed().as_secs_f64());
        std::process::exit(0);
    }
}
/// known_findings.txt: `known: property=<id> key=<key> | <item>; <item> | <text>`
fn load_known(env: &Env, prop: &str) -> BTreeMap<String, (Vec<String>, String)> {
    let mut out = BTreeMap::new();
    let txt = std::fs::read_to_string(format!("{}/known_findings.txt", env.root)).unwrap_or_default();
    for line in txt.lines() {
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let parts: Vec<&str> = rest.splitn(3, " | ").collect();
        if parts.len() != 3 { panic!("known_findings.txt: {}", line); }
        let mut head = parts[0].split_whitespace();
        if head.next() != Some(prop) { continue; }
        let key = head.next().and_then(|k| k.strip_prefix("key=")).expect("known_findings.txt key");
        let items = parts[1].split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        out.insert(key.to_string(), (items, parts[2].trim().to_string()));
    }
    out
}
/// A set that only counts distinct hashes.
#[derive(Default)]
pub struct Distinct(std::collections::HashSet<u64>);
impl Distinct {
    pub fn add<T: std::hash::Hash>(&mut self, t: &T) -> bool {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.0.insert(h.finish())
    }
    pub fn len(&self) -> u64 { self.0.len() as u64 }
    pub fn merge(&mut self, o: Distinct) { self.0.extend(o.0); }
}
pub fn ordered(s: &BTreeSet<String>) -> Value { json!(s.iter().collect::<Vec<_>>()) }
