//! C11-C14: monitors of the generator: its library function, its process, and its compiled output.
use crate::carriers::{panic_text, watched};
use crate::cldr::{self, Locale, CATS, OTHER};
use crate::dec::*;
use crate::gen::*;
use crate::libchecks::clip;
use crate::nums;
use crate::par::par;
use crate::refsem::*;
use crate::report::*;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use unic_langid::LanguageIdentifier;

pub fn generate(files: &[String]) -> Result<String, String> {
    watched(std::panic::AssertUnwindSafe(|| make_pluralrules::generate_rs(files))).map_err(panic_text)
}

// ---------------------------------------------------------------- C11: rules

/// The forms of relations for which the generator is known to write something else.
pub fn quirk_forms(r: &Rel) -> Vec<&'static str> {
    let mut v = Vec::new();
    let val = r.list.iter().any(|i| matches!(i, Item::Val(_)));
    let ran = r.list.iter().any(|i| matches!(i, Item::Range(..)));
    if r.op == Op::NotWithin { v.push("not-within"); }
    if r.opnd == Opnd::N && r.modulus.is_some() {
        if r.op == Op::Within { v.push("n%m-within"); }
        if !r.op.within() && val { v.push("n%m-value"); }
        if !r.op.within() && ran { v.push("n%m-range"); }
    }
    if r.opnd == Opnd::N && r.modulus.is_none() && !r.op.within() && r.op.negated() && ran { v.push("n-not-range"); }
    v
}
fn small(r: &mut Rng, opnd: Opnd, m: Option<u64>) -> u64 {
    if let Some(m) = m { if r.chance(9, 10) { return r.below(m) & ((1 << 53) - 1); } }
    match opnd {
        Opnd::V | Opnd::W => r.below(7),
        _ => match r.below(12) { 0..=6 => r.below(13), 7..=9 => r.below(130), 10 => r.below(1_000_000_000), _ => r.next() & ((1 << 53) - 1) },
    }
}
pub fn gen_rel(r: &mut Rng) -> Rel {
    let opnd = *r.pick(&[Opnd::N, Opnd::N, Opnd::I, Opnd::I, Opnd::V, Opnd::W, Opnd::F, Opnd::T]);
    let modulus = if r.chance(2, 5) { Some(match r.below(24) { 0 => r.mag().max(1), 1 => (*r.pick(&crate::dict::dict().ints)).max(1), 2 => 1 + r.below(300), _ => *r.pick(&[2, 3, 5, 7, 10, 10, 100, 100, 1000, 1_000_000, 9, 11, 1]) }) } else { None };
    let op = if r.chance(3, 5) { *r.pick(&[Op::Eq, Op::Eq, Op::Ne]) } else { *r.pick(&Op::ALL) };
    let n = match r.below(160) { 0..=79 => 1, 80..=119 => 2, 120..=139 => 3, 159 => 1 + r.below(60), _ => 1 + r.below(5) };
    let list = (0..n).map(|_| {
        let a = small(r, opnd, modulus);
        if r.chance(2, 5) { let b = if r.chance(1, 6) { small(r, opnd, modulus) } else { a + r.below(9) }; Item::Range(a.min(b), a.max(b)) } else { Item::Val(a) }
    }).collect();
    Rel { opnd, modulus, op, list }
}
fn gen_cond(r: &mut Rng) -> Cond {
    let some = |r: &mut Rng| match r.below(200) { 0..=99 => 1, 100..=159 => 2, 160..=179 => 3, 199 => 1 + r.below(20), _ => 4 };
    let ors = some(r);
    (0..ors).map(|_| { let ands = some(r); (0..ands).map(|_| gen_rel(r)).collect() }).collect()
}
fn gen_locale_rules(r: &mut Rng, name: String) -> LocRules {
    let rules = match r.below(10) {
        0..=4 => vec![(r.below(5) as u8, gen_cond(r))],
        5..=8 => {
            // several categories, kept apart by a guard in every branch
            let mut cats: Vec<u8> = (0..5).collect();
            r.shuffle(&mut cats);
            let n = 2 + r.below(4) as usize;
            let guard = *r.pick(&[Opnd::I, Opnd::V, Opnd::F]);
            cats[..n].iter().enumerate().map(|(k, c)| {
                let mut cond = gen_cond(r);
                for a in &mut cond { let g = Rel { opnd: guard, modulus: Some(n as u64), op: Op::Eq, list: vec![Item::Val(k as u64)] }; let at = r.below(a.len() as u64 + 1) as usize; a.insert(at, g); }
                (*c, cond)
            }).collect()
        }
        _ => { let n = r.below(4); let mut cats: Vec<u8> = (0..5).collect(); r.shuffle(&mut cats); cats[..n as usize].iter().map(|c| (*c, gen_cond(r))).collect() }
    };
    LocRules { name, rules }
}
/// Distinct plain language codes.
pub fn lang_codes(n: usize) -> Vec<String> {
    let mut v = Vec::new();
    for a in b'a'..=b'z' { for b in b'a'..=b'z' { for c in b'a'..=b'z' {
        if v.len() == n { return v; }
        let s: String = [a, b, c].iter().map(|x| *x as char).collect();
        let p = s.parse::<LanguageIdentifier>();
        if p.map(|p| p.to_string() == s).unwrap_or(false) && s != "und" { v.push(s); }
    } } }
    v
}
/// Every operand x operator x modulus x list shape, one relation per locale.
fn systematic() -> Vec<Vec<(u8, Cond)>> {
    let mut v = Vec::new();
    for opnd in Opnd::ALL { for op in Op::ALL { for m in [None, Some(10u64)] {
        for list in [vec![Item::Val(3)], vec![Item::Range(2, 4)], vec![Item::Val(1), Item::Val(5)], vec![Item::Val(1), Item::Range(3, 5)], vec![Item::Range(0, 1), Item::Range(4, 6)], vec![Item::Range(5, 6), Item::Val(0), Item::Range(2, 2)]] {
            v.push(vec![((v.len() % 5) as u8, vec![vec![Rel { opnd, modulus: m, op, list }]])]);
        }
    } } }
    v
}
/// Long lists, many relations, many branches, and categories whose conditions differ only at one end.
fn big() -> Vec<Vec<(u8, Cond)>> {
    let mut v: Vec<Vec<(u8, Cond)>> = Vec::new();
    let rel = |opnd, modulus, op, list| Rel { opnd, modulus, op, list };
    for (n, len) in [17u64, 33, 65, 129, 257].into_iter().enumerate() {
        for shape in 0..3 {
            for (opnd, op) in [(Opnd::I, Op::Eq), (Opnd::N, Op::Eq), (Opnd::F, Op::Ne), (Opnd::I, Op::Ne), (Opnd::T, Op::Within), (Opnd::I, Op::NotIn)] {
                if shape > 0 && len > 200 && opnd != Opnd::I { continue; }
                let list = (0..len).map(|k| if shape == 0 || shape == 2 && k % 2 == 0 { Item::Val(k * 5 + 1) } else { Item::Range(k * 5, k * 5 + 2) }).collect();
                v.push(vec![((n % 5) as u8, vec![vec![rel(opnd, if shape == 2 && opnd == Opnd::I { Some(10_000) } else { None }, op, list)]])]);
            }
        }
        v.push(vec![(1, (0..len).map(|k| vec![rel(Opnd::I, None, Op::Eq, vec![Item::Val(k * 3)]), rel(Opnd::V, None, Op::Eq, vec![Item::Val(k % 3)])]).collect())]);
        v.push(vec![(2, (0..len).map(|k| vec![rel(Opnd::N, None, Op::Eq, vec![Item::Range(k * 4, k * 4 + 1)])]).collect())]);
        v.push(vec![(3, vec![(0..len).map(|k| rel(Opnd::I, None, Op::Ne, vec![Item::Val(k * 3)])).collect()])]);
        v.push(vec![(4, vec![(0..len).map(|k| rel(Opnd::F, Some(1000), Op::NotIn, vec![Item::Range(k * 3, k * 3 + 1)])).collect()])]);
        // categories alike but for one relation, at either end or in the middle
        for at in 0..3 { for cats in [vec![0u8, 1], vec![1, 3, 4], vec![4, 3, 2, 1, 0]] {
            let common: Vec<Rel> = (0..len.min(70)).map(|k| rel([Opnd::I, Opnd::F, Opnd::I][k as usize % 3], if k % 2 == 0 { Some(1000) } else { None }, Op::Ne, vec![Item::Val(500 + k * 3), Item::Range(800 + k, 802 + k)])).collect();
            let m = cats.len() as u64;
            v.push(cats.iter().enumerate().map(|(k, c)| {
                let mut a = common.clone();
                let last = rel(Opnd::I, Some(m), Op::Eq, vec![Item::Val(k as u64)]);
                let p = match at { 0 => 0, 1 => a.len() / 2, _ => a.len() };
                a.insert(p, last);
                (*c, vec![a])
            }).collect());
        } }
        // categories that differ only in one value of a long list
        for at in [0, len / 2, len - 1] {
            let list = |x: u64| vec![vec![rel(Opnd::I, None, Op::Eq, (0..len).map(|k| if k == at { Item::Val(900_000 + x) } else { Item::Val(k * 7) }).collect())]];
            v.push(vec![(1, list(1)), (3, list(2))]);
        }
    }
    v
}
struct Tally { evals: u64, distinct: Distinct, bad: Vec<(String, Value)>, nbad: u64, known: BTreeMap<String, u64>, forms: BTreeMap<String, (u64, u64)>, refused: u64 }

pub fn c11(env: &Env) -> ! {
    let mut rep = Report::new(env, "C11");
    let nsets = env.scale(6, 24) as usize;
    let per = env.scale(220, 300) as usize;
    let codes = lang_codes(1200);
    let dir = scratch(env, "C11");
    let mut sets: Vec<RuleSet> = Vec::new();
    let sys = systematic();
    let big = big();
    let half = sys.len() / 2;
    for k in 0..nsets {
        let mut r = Rng::new(env.seed, &format!("C11/set/{}", k));
        let mk = |r: &mut Rng, sysl: &[Vec<(u8, Cond)>]| -> Vec<LocRules> {
            let mut v: Vec<LocRules> = Vec::new();
            for c in &codes { if v.len() < sysl.len() { v.push(LocRules { name: c.clone(), rules: sysl[v.len()].clone() }); } else if v.len() < sysl.len().max(per) { v.push(gen_locale_rules(r, c.clone())); } }
            v
        };
        let (a, b) = if k == 0 { (&sys[..half], &sys[half..]) } else if k == 1 { (&big[..], &sys[..0]) } else { (&sys[..0], &sys[..0]) };
        let cardinal = mk(&mut r, a);
        let ordinal = mk(&mut r, b);
        sets.push(RuleSet { version: (30 + k).to_string(), cardinal: Some(cardinal), ordinal: Some(ordinal) });
    }
    // write, generate
    let idx: Vec<usize> = (0..sets.len()).collect();
    let gen = par(&idx, |_, k| {
        let mut r = Rng::new(env.seed, &format!("C11/json/{}", k));
        let (a, b, o) = (dir.join(format!("c{}.json", k)), dir.join(format!("o{}.json", k)), dir.join(format!("out{}.rs", k)));
        std::fs::write(&a, file_json(&mut r, &PLAIN, &sets[*k].version, sets[*k].cardinal.as_deref(), None)).unwrap();
        std::fs::write(&b, file_json(&mut r, &PLAIN, &sets[*k].version, None, sets[*k].ordinal.as_deref())).unwrap();
        let ran = cli(env, &[&a, &b], &o, false);
        (ran, o)
    });
    let mut rules: Vec<PathBuf> = Vec::new();
    let mut used: Vec<usize> = Vec::new();
    for (k, (ran, o)) in gen.into_iter().enumerate() {
        rep.evaluations += 1;
        if !ran.ok() {
            let culprit = culprit_locale(&sets[k]);
            rep.violate(format!("valid rule set {} is refused (exit {:?}): {} {}", k, ran.code, clip(&ran.stderr), culprit.clone().unwrap_or_default()), json!(["generate", culprit]));
        } else { rules.push(o); used.push(k); }
    }
    let mut compiled = 0;
    if !rules.is_empty() {
        match build_runner(env, &dir, &rules) {
            Built::Failed(e) => rep.inconclusive.push(format!("the runner does not build: {}", e)),
            Built::GeneratedBroken(s, e) => rep.violate(format!("the generated code does not compile (set {}): {}", used[s], e), json!(["compile", sets[used[s]].version, e])),
            Built::Ok(bin) => {
                compiled = rules.len();
                let known = rep.known.clone();
                let mut jobs: Vec<(usize, usize, &'static str, &LocRules)> = Vec::new();
                for (s, k) in used.iter().enumerate() {
                    for l in sets[*k].cardinal.as_ref().unwrap() { jobs.push((s, *k, "C", l)); }
                    for l in sets[*k].ordinal.as_ref().unwrap() { jobs.push((s, *k, "O", l)); }
                }
                let mut base: Vec<Dec> = (0..=125).map(Dec::int).collect();
                for i in [0u64, 1, 2, 3, 5, 11, 13, 103] { for f in nums::FRACS { base.push(Dec::new(i, f)); } }
                for b in nums::boundary_ints().into_iter().step_by(7) { base.push(Dec::int(b)); }
                let prepared = par(&jobs, |n, (s, _, ty, l)| {
                    let mut r = Rng::new(env.seed, &format!("C11/nums/{}", n));
                    let loc = Locale { name: l.name.clone(), rules: l.rules.clone(), samples: vec![] };
                    let rels = loc.relations();
                    let mut v = base.clone();
                    v.extend(nums::directed(&rels, &mut r, env.scale(5, 20) as usize));
                    v.extend(nums::combined(&rels, &mut r, env.scale(150, 1000) as usize));
                    v.extend((0..60).map(|_| nums::random_dec(&mut r)));
                    v.retain(|d| d.in_domain());
                    v.sort();
                    v.dedup();
                    let q = format!("S {} {} {} {}", s, ty, l.name, v.iter().map(|d| ops_token(&d.ops().unwrap())).collect::<Vec<_>>().join(" "));
                    (v, q)
                });
                let (numbers, queries): (Vec<Vec<Dec>>, Vec<String>) = prepared.into_iter().unzip();
                match ask(&bin, &dir, &queries) {
                    Err(e) => rep.inconclusive.push(e),
                    Ok(answers) => {
                        let all: Vec<(usize, &(usize, usize, &'static str, &LocRules))> = jobs.iter().enumerate().collect();
                        let outs = par(&all, |_, (n, (_, _, ty, l))| judge(&known, ty, l, &numbers[*n], &answers[*n]));
                        let mut forms: BTreeMap<String, (u64, u64)> = BTreeMap::new();
                        let mut d = Distinct::default();
                        for t in outs {
                            rep.evaluations += t.evals;
                            rep.total_violations += t.nbad;
                            for (s, c) in t.bad { if rep.violations.len() < 20 { rep.violations.push(Violation { summary: s, case: c }); } }
                            for (k, n) in t.known { *rep.known_hits.entry(k).or_insert(0) += n; }
                            for (k, (a, b)) in t.forms { let e = forms.entry(k).or_insert((0, 0)); e.0 += a; e.1 += b; }
                            d.merge(t.distinct);
                            let _ = t.refused;
                        }
                        rep.distinct = d.len();
                        let both = forms.values().filter(|(a, b)| *a > 0 && *b > 0).count();
                        rep.put("relation_forms", json!(forms.len()));
                        rep.put("relation_forms_seen_true_and_false", json!(both));
                        if forms.len() < 96 || both < 90 { rep.inconclusive.push(format!("{} relation forms, {} seen both true and false", forms.len(), both)); }
                    }
                }
            }
        }
    }
    rep.put("rule_sets_generated", json!(sets.len()));
    rep.put("rule_sets_compiled", json!(compiled));
    rep.put("locales", json!(sets.iter().map(|s| s.cardinal.as_ref().unwrap().len() + s.ordinal.as_ref().unwrap().len()).sum::<usize>()));
    for s in sets.iter().skip(1).take(6) { let l = &s.cardinal.as_ref().unwrap()[3]; rep.sample(json!(l.rules.iter().map(|(k, c)| format!("{}: {}", KEYS[*k as usize], cond_text(c))).collect::<Vec<_>>().join(" / "))); }
    rep.rule = "rule sets generated as data, written as CLDR JSON, translated by the real make_pluralrules process, put in place of rules.rs in a copy of the library, compiled, and selected from with ready-made operands; judged by the UTS 35 evaluator on the same data; distinct counts (rules of a locale, number) pairs".into();
    rep.assumptions.push("moduli are not zero, values are below 2^53 (n is a double), rule text is spelled as CLDR spells it; where several conditions hold, any of their categories is accepted".into());
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish(env)
}
/// The first locale of a refused set that is refused on its own.
fn culprit_locale(s: &RuleSet) -> Option<String> {
    let mut r = Rng::new(1, "culprit");
    for l in s.cardinal.iter().chain(s.ordinal.iter()).flatten() {
        let f = file_json(&mut r, &PLAIN, &s.version, Some(std::slice::from_ref(l)), None);
        if generate(&[f]).is_err() { return Some(l.rules.iter().map(|(k, c)| format!("{}: {}", KEYS[*k as usize], cond_text(c))).collect::<Vec<_>>().join(" / ")); }
    }
    None
}
fn judge(known: &BTreeMap<String, (Vec<String>, String)>, ty: &str, l: &LocRules, numbers: &[Dec], answer: &str) -> Tally {
    let mut t = Tally { evals: 0, distinct: Distinct::default(), bad: vec![], nbad: 0, known: BTreeMap::new(), forms: BTreeMap::new(), refused: 0 };
    let text = l.rules.iter().map(|(k, c)| format!("{}: {}", KEYS[*k as usize], cond_text(c))).collect::<Vec<_>>().join(" / ");
    let loc = Locale { name: l.name.clone(), rules: l.rules.clone(), samples: vec![] };
    let a: Vec<char> = answer.chars().collect();
    if a.len() != numbers.len() {
        t.nbad += 1;
        t.bad.push((format!("locale {} of the generated {} table is not found ({})", l.name, ty, text), json!(["rules", text])));
        return t;
    }
    let listed = |_: u8, r: &Rel| { let q = quirk_forms(r); !q.is_empty() && q.iter().all(|f| known.contains_key(*f)) };
    for (d, g) in numbers.iter().zip(&a) {
        let x = d.ops().unwrap();
        t.evals += 1;
        t.distinct.add(&(&text, d.text()));
        for r in loc.relations() {
            let e = t.forms.entry(format!("{} {}{}", r.opnd.ch(), if r.modulus.is_some() { "% " } else { "" }, r.op.words().join(" "))).or_insert((0, 0));
            if eval_rel(r, &x) { e.0 += 1 } else { e.1 += 1 }
        }
        let m = loc.matching(&x);
        let got = g.to_digit(10).map(|v| v as u8);
        if let Some(c) = got { if m.contains(&c) || m.is_empty() && c == OTHER { continue; } }
        if got == Some(loc.with_quirks(&x, &listed)) && loc.relations().iter().any(|r| listed(0, r)) {
            for r in loc.relations() { if listed(0, r) && eval_rel(r, &x) != eval_rel_quirk(r, &x) { for f in quirk_forms(r) { *t.known.entry(f.into()).or_insert(0) += 1; } } }
            continue;
        }
        t.nbad += 1;
        if t.bad.len() < 2 {
            let want: Vec<&str> = if m.is_empty() { vec!["other"] } else { m.iter().map(|c| CATS[*c as usize]).collect() };
            let gs = got.map(|c| CATS[c as usize].to_string()).unwrap_or(format!("failure {}", g));
            t.bad.push((format!("rules [{}]: generated code gives {} for {}, UTS 35 gives {:?}", clip(&text), gs, d.text(), want), json!(["rules", text, d.text()])));
        }
    }
    t
}

// ---------------------------------------------------------------- C12

fn unique_rule(k: u64) -> Vec<(u8, Cond)> {
    vec![(1, vec![vec![Rel { opnd: Opnd::I, modulus: None, op: Op::Eq, list: vec![Item::Val(1000 + k)] }]])]
}
fn random_id(r: &mut Rng) -> String {
    let al = |r: &mut Rng, n: u64| -> String { (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() };
    let n = *r.pick(&[2, 2, 2, 3, 3, 5, 8]);
    let mut s = al(r, n);
    if r.chance(1, 3) { s.push('-'); s.push_str(&al(r, 4)); }
    if r.chance(1, 2) { s.push('-'); if r.chance(3, 4) { s.push_str(&al(r, 2).to_uppercase()); } else { s.push_str(&format!("{:03}", r.below(1000))); } }
    s
}
fn id_families() -> Vec<String> {
    let mut v = Vec::new();
    for l in ["en", "sr", "zh", "aa", "zz", "eng", "fil", "zza", "abcde", "abcdefgh", "pt", "a", "ab", "abc", "b", "ba"] {
        for s in ["", "-Latn", "-Cyrl", "-Zzzz", "-Aaaa"] { for g in ["", "-US", "-PT", "-AA", "-ZZ", "-001", "-419", "-999"] { v.push(format!("{}{}{}", l, s, g)); } }
    }
    // words of the sources as, and inside, language codes
    for w in crate::dict::dict().texts.iter().map(|s| s.as_str()).chain(["root", "rooti", "rootab", "und", "other", "one", "version", "mul", "mis", "zxx", "qaa", "art"]) {
        if w.len() < 2 || w.len() > 8 || !w.bytes().all(|b| b.is_ascii_alphabetic()) { continue; }
        for x in [w.to_string(), format!("{}z", w), format!("{}xyz", w), format!("{}qqqq", w), format!("a{}", w), format!("{}-Latn", w), format!("{}b-US", w), format!("{}-US", &w[..w.len().min(3)])] { v.push(x); }
    }
    v
}
pub fn canon_id(s: &str) -> Option<String> {
    let id: LanguageIdentifier = s.parse().ok()?;
    if id.variants().len() > 0 || id.language.is_empty() { return None; }
    Some(id.to_string())
}
pub fn c12(env: &Env) -> ! {
    let mut rep = Report::new(env, "C12");
    let dir = scratch(env, "C12");
    let mut distinct = Distinct::default();
    // locale sets
    let mut r = Rng::new(env.seed, "C12");
    let mut sets: Vec<(String, Vec<String>, Vec<String>)> = Vec::new();
    let fam: Vec<String> = id_families().into_iter().filter_map(|s| canon_id(&s)).collect::<BTreeSet<_>>().into_iter().collect();
    let two: Vec<String> = (b'a'..=b'z').flat_map(|a| (b'a'..=b'z').map(move |b| format!("{}{}", a as char, b as char))).filter_map(|s| canon_id(&s)).collect();
    let cl = cldr::load(&env.root);
    let real = |v: &[Locale]| v.iter().map(|l| l.name.clone()).collect::<Vec<String>>();
    sets.push(("7".into(), fam.clone(), two.clone()));
    sets.push(("37".into(), real(&cl.cardinal), real(&cl.ordinal)));
    sets.push(("100".into(), vec!["en".into()], vec!["sr-Latn-RS".into()]));
    for k in 0..env.scale(5, 16) {
        let n = [2, 3, 17, 120, 400][(k % 5) as usize];
        let mk = |r: &mut Rng| -> Vec<String> {
            let mut s = BTreeSet::new();
            while s.len() < n { let t = if r.chance(1, 4) { r.pick(&fam).clone() } else { random_id(r) }; if let Some(c) = canon_id(&t) { s.insert(c); } }
            let mut v: Vec<String> = s.into_iter().collect();
            r.shuffle(&mut v);
            v
        };
        // versions at the edges of narrower types, too
        let ver = [r.below(500), 256 + r.below(3), 65536 + r.below(40), (1 << 32) + r.below(40), 99 + r.below(3)][(k % 5) as usize];
        sets.push((ver.to_string(), mk(&mut r), mk(&mut r)));
    }
    let mut rules = Vec::new();
    let mut used = Vec::new();
    for (k, (ver, c, o)) in sets.iter().enumerate() {
        let spell = |r: &mut Rng, s: &str| if k % 3 == 2 { match r.below(4) { 0 => s.to_lowercase(), 1 => s.to_uppercase(), 2 => s.replace('-', "_"), _ => s.to_string() } } else { s.to_string() };
        let mk = |r: &mut Rng, v: &[String], off: u64| -> Vec<LocRules> {
            let mut l: Vec<LocRules> = v.iter().enumerate().map(|(n, s)| LocRules { name: spell(r, s), rules: if n % 11 == 10 { vec![] } else { unique_rule(off + n as u64) } }).collect();
            if k % 2 == 1 { let at = r.below(l.len() as u64 + 1) as usize; l.insert(at, LocRules { name: "root".into(), rules: vec![] }); }
            l
        };
        let (lc, lo) = (mk(&mut r, c, 0), mk(&mut r, o, 5000));
        let out = dir.join(format!("out{}.rs", k));
        let layout = Layout { shuffle: k % 2 == 0, ..PLAIN };
        let ran = if k % 2 == 0 {
            let f = dir.join(format!("both{}.json", k));
            std::fs::write(&f, file_json(&mut r, &layout, ver, Some(&lc), Some(&lo))).unwrap();
            cli(env, &[&f], &out, false)
        } else {
            let (a, b) = (dir.join(format!("o{}.json", k)), dir.join(format!("c{}.json", k)));
            std::fs::write(&a, file_json(&mut r, &layout, ver, None, Some(&lo))).unwrap();
            std::fs::write(&b, file_json(&mut r, &layout, ver, Some(&lc), None)).unwrap();
            cli(env, &[&a, &b], &out, false)
        };
        rep.evaluations += 1;
        if ran.ok() { rules.push(out); used.push(k); } else { rep.violate(format!("a valid locale set is refused: {} (locales {:?} ...)", clip(&ran.stderr), &c[..c.len().min(5)]), json!(["locales", c, o])); }
    }
    match if rules.is_empty() { Built::Failed("nothing was generated".into()) } else { build_runner(env, &dir, &rules) } {
        Built::Failed(e) => if rep.total_violations == 0 { rep.inconclusive.push(format!("the runner does not build: {}", e)) },
        Built::GeneratedBroken(s, e) => rep.violate(format!("the generated tables do not compile: {}", e), json!(["locales", sets[used[s]].1, sets[used[s]].2])),
        Built::Ok(bin) => {
            let mut qs: Vec<String> = Vec::new();
            let mut want: Vec<(String, Value)> = Vec::new();
            enum W { Is(String), Set(BTreeSet<String>), Find(bool, String) }
            let mut ws: Vec<W> = Vec::new();
            for (s, k) in used.iter().enumerate() {
                let (ver, c, o) = &sets[*k];
                qs.push(format!("V {}", s));
                ws.push(W::Is(ver.clone()));
                want.push((format!("set {}: CLDR version", k), json!(["version", ver])));
                for (t, v, off) in [("C", c, 0u64), ("O", o, 5000)] {
                    qs.push(format!("L {} {}", s, t));
                    ws.push(W::Set(v.iter().cloned().collect()));
                    want.push((format!("set {}: {} locales", k, t), json!(["locales", v])));
                    let have: BTreeSet<&String> = v.iter().collect();
                    // each locale is found and carries its own rule
                    for (n, id) in v.iter().enumerate() {
                        let mine = 1000 + off + n as u64;
                        let other = 1000 + off + ((n + 1) % v.len().max(2)) as u64;
                        qs.push(format!("S {} {} {} {} {}", s, t, id, ops_token(&Dec::int(mine).ops().unwrap()), ops_token(&Dec::int(other).ops().unwrap())));
                        ws.push(W::Find(true, if n % 11 == 10 { "55".into() } else { "15".into() }));
                        want.push((format!("set {}: lookup of {} in {}", k, id, t), json!(["lookup", id, v])));
                        distinct.add(&(k, t, id));
                    }
                    // identifiers that are not in the set are not found
                    for id in fam.iter().chain(two.iter()).chain(c.iter()).chain(o.iter()) {
                        if have.contains(id) { continue; }
                        qs.push(format!("S {} {} {} {}", s, t, id, ops_token(&Dec::int(1000).ops().unwrap())));
                        ws.push(W::Find(false, "!".into()));
                        want.push((format!("set {}: lookup of absent {} in {}", k, id, t), json!(["lookup", id, v])));
                    }
                }
            }
            match ask(&bin, &dir, &qs) {
                Err(e) => rep.inconclusive.push(e),
                Ok(ans) => for (k, a) in ans.iter().enumerate() {
                    rep.evaluations += 1;
                    let ok = match &ws[k] {
                        W::Is(v) => a == v,
                        W::Find(_, v) => a == v,
                        W::Set(v) => { let got: Vec<&str> = a.split(' ').filter(|s| !s.is_empty()).collect(); got.len() == v.len() && got.iter().all(|g| v.contains(*g)) }
                    };
                    if !ok {
                        let e = match &ws[k] { W::Is(v) => v.clone(), W::Find(_, v) => v.clone(), W::Set(v) => format!("{} locales", v.len()) };
                        rep.violate(format!("{}: got {:?}, expected {:?}", want[k].0, clip(a), e), want[k].1.clone());
                    }
                },
            }
        }
    }
    rep.put("locale_sets", json!(sets.iter().map(|s| (s.1.len(), s.2.len())).collect::<Vec<_>>()));
    // determinism: arrangements of the same data
    let mut arr = 0u64;
    let rounds = env.scale(12, 80);
    let idx: Vec<u64> = (0..rounds).collect();
    let outs = par(&idx, |_, k| {
        let mut r = Rng::new(env.seed, &format!("C12/arr/{}", k));
        let mut bad: Vec<(String, Value)> = Vec::new();
        let mut n = 0u64;
        let mk = |r: &mut Rng| -> Vec<LocRules> {
            let mut ids: BTreeSet<String> = BTreeSet::new();
            let want = 1 + r.below(40) as usize;
            while ids.len() < want { if let Some(c) = canon_id(&random_id(r)) { ids.insert(c); } }
            ids.into_iter().map(|s| gen_locale_rules(r, s)).collect()
        };
        let ver = r.below(1000).to_string();
        let (c, o) = (mk(&mut r), mk(&mut r));
        let base_c = file_json(&mut r, &PLAIN, &ver, Some(&c), None);
        let base_o = file_json(&mut r, &PLAIN, &ver, None, Some(&o));
        let base = match generate(&[base_c.clone(), base_o.clone()]) { Ok(b) => b, Err(e) => { bad.push((format!("valid input is refused: {}", clip(&e)), json!(["files", base_c, base_o]))); return (bad, n); } };
        for v in 0..12 {
            let layout = Layout { shuffle: v > 1, pretty: r.chance(1, 2), escape: v > 3, samples: r.chance(2, 3), other: true };
            let files = match v % 4 {
                0 => vec![file_json(&mut r, &layout, &ver, Some(&c), None), file_json(&mut r, &layout, &ver, None, Some(&o))],
                1 => vec![file_json(&mut r, &layout, &ver, None, Some(&o)), file_json(&mut r, &layout, &ver, Some(&c), None)],
                2 => vec![file_json(&mut r, &layout, &ver, Some(&c), Some(&o))],
                _ => vec![base_o.clone(), base_c.clone()],
            };
            n += 1;
            match generate(&files) {
                Ok(t) if t == base => {}
                Ok(t) => { let p = t.bytes().zip(base.bytes()).position(|(a, b)| a != b).unwrap_or(0); bad.push((format!("the same data in arrangement {} gives different code, from byte {}", v, p), json!(["files", files]))); }
                Err(e) => bad.push((format!("the same data in arrangement {} is refused: {}", v, clip(&e)), json!(["files", files]))),
            }
        }
        // separate processes
        for v in 0..3u64 {
            let layout = Layout { shuffle: true, escape: v == 1, ..PLAIN };
            let (a, b, out) = (dir.join(format!("p{}-{}a.json", k, v)), dir.join(format!("p{}-{}b.json", k, v)), dir.join(format!("p{}-{}.rs", k, v)));
            let ran = if v == 2 {
                std::fs::write(&a, file_json(&mut r, &layout, &ver, Some(&c), Some(&o))).unwrap();
                cli(env, &[&a], &out, true)
            } else {
                std::fs::write(&a, file_json(&mut r, &layout, &ver, Some(&c), None)).unwrap();
                std::fs::write(&b, file_json(&mut r, &layout, &ver, None, Some(&o))).unwrap();
                if v == 0 { cli(env, &[&a, &b], &out, true) } else { cli(env, &[&b, &a], &out, true) }
            };
            n += 1;
            let t = std::fs::read_to_string(&out).unwrap_or_default();
            if !ran.ok() { bad.push((format!("the same data is refused by the tool: {}", clip(&ran.stderr)), json!(["files", base_c, base_o]))); }
            else if t != base { bad.push((format!("the same data gives different code in another process (run {})", v), json!(["files", base_c, base_o]))); }
        }
        (bad, n)
    });
    for (b, n) in outs { rep.evaluations += n; arr += n; for (s, c) in b { rep.violate(s, c); } }
    rep.put("arrangements_compared", json!(arr));
    // single type inputs: only that table
    for (c, o) in [(true, false), (false, true)] {
        let l = vec![LocRules { name: "en".into(), rules: unique_rule(1) }];
        let f = file_json(&mut r, &PLAIN, "9", if c { Some(&l) } else { None }, if o { Some(&l) } else { None });
        rep.evaluations += 1;
        match generate(&[f]) {
            Ok(t) => if t.contains("PRS_CARDINAL") != c || t.contains("PRS_ORDINAL") != o { rep.violate("input of one type gives another table".into(), json!(["single", c, o])); },
            Err(e) => rep.violate(format!("input of one type is refused: {}", clip(&e)), json!(["single", c, o])),
        }
    }
    // the recorded defect
    let l = vec![LocRules { name: "und".into(), rules: unique_rule(1) }];
    if let Ok(t) = generate(&[file_json(&mut r, &PLAIN, "9", Some(&l), None)]) {
        if t.replace(' ', "").contains("langid!(None,None,None)") {
            if rep.known.contains_key("und") { rep.known_hit("und"); } else { rep.violate("the entry of locale und does not compile".into(), json!(["locales", ["und"]])); }
        }
    }
    rep.distinct = distinct.len() + arr;
    for s in sets.iter().rev().take(4) { rep.sample(json!(s.1.iter().take(6).collect::<Vec<_>>())); }
    rep.rule = "locale sets (prefix families with scripts and regions, all 2-letter languages, the CLDR sets, random) through the real tool, compiled into a copy of the library: list, lookup of every present and many absent locales, an own rule per locale, version; the same data in many arrangements and processes compared byte by byte; distinct counts (set, type, locale) and arrangements".into();
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish(env)
}

// ---------------------------------------------------------------- C13

/// Texts that are not UTS 35 conditions, whatever the spelling of blanks.
pub const BAD_CONDITIONS: &[&str] = &[
    "x = 1", "n == 1", "n = 1 xor i = 2", "n = 1 and", "n = 1 or", "and n = 1", "or n = 1", "n = 1 and or v = 0", "n = 1..", "n = ..4", "n = 1,", "n = ,1", "n = 1,,2", "n",
    "n 1", "= 1", "n = one", "n = 1.5", "n = -1", "n in", "n is", "n not 1", "n isnt 1", "n % = 1", "n % x = 1", "n %% 10 = 1", "n mod = 1", "n < 5", "n > 5", "n >= 5", "n = 1 2", "n = 1 v = 0",
    "(n = 1)", "n = 1;", "n = 1 && v = 0", "n = 1 || v = 0", "not n = 1", "e = 0 and n = 1 and q = 2", "n = 1 and v = 0 and z = 3", "n = 1..4..6", "n = 1...4", "n within", "n = 99999999999999999999999", "n % 99999999999999999999999 = 1",
    "N = 1", "n = 1 AND v = 0", "n = 1 or v = 0 nonsense", "nonsense", "n = 1 and v", "n = 1 and v =", "n =", "n != ", "n = 1 or i", "one", "n = 1 and (v = 0)", "n : 1", "n = 1~4", "n = 1–4", "ｎ = 1",
];
pub struct Fault { pub files: Vec<String>, pub what: String }

fn bases(r: &mut Rng) -> (String, Vec<LocRules>, Vec<LocRules>) {
    let mk = |r: &mut Rng| -> Vec<LocRules> {
        let n = if r.chance(1, 60) { 60 + r.below(200) as usize } else { 1 + r.below(12) as usize };
        let mut ids: BTreeSet<String> = BTreeSet::new();
        while ids.len() < n { if let Some(c) = canon_id(&random_id(r)) { ids.insert(c); } }
        ids.into_iter().map(|s| { let mut l = gen_locale_rules(r, s); if l.rules.is_empty() { l.rules = unique_rule(1); } l }).collect()
    };
    ((1 + r.below(60)).to_string(), mk(r), mk(r))
}
/// Raw category text per locale, so that faults can be put anywhere.
type Raw = Vec<(String, Vec<(String, String)>)>;
fn raw(l: &[LocRules]) -> Raw {
    l.iter().map(|l| (l.name.clone(), l.rules.iter().map(|(k, c)| (format!("pluralRule-count-{}", KEYS[*k as usize]), cond_text(c))).chain(Some(("pluralRule-count-other".to_string(), String::new()))).collect())).collect()
}
fn raw_json(ver: &str, c: Option<&Raw>, o: Option<&Raw>) -> String {
    let one = |v: &Raw| format!("{{{}}}", v.iter().map(|(n, cats)| format!("{}:{{{}}}", jstr(n), cats.iter().map(|(k, t)| format!("{}:{}", jstr(k), jstr(t))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let mut s = format!("{{\"supplemental\":{{\"version\":{{\"_unicodeVersion\":\"12.1.0\",\"_cldrVersion\":{}}}", jstr(ver));
    if let Some(c) = c { s.push_str(&format!(",\"plurals-type-cardinal\":{}", one(c))); }
    if let Some(o) = o { s.push_str(&format!(",\"plurals-type-ordinal\":{}", one(o))); }
    s.push_str("}}");
    s
}
pub fn gen_fault(r: &mut Rng) -> (Fault, Vec<String>) {
    let (ver, c, o) = bases(r);
    let (mut c, mut o) = (raw(&c), raw(&o));
    let split = r.chance(1, 2);
    let build = |ver: &str, c: &Raw, o: &Raw| if split { vec![raw_json(ver, Some(c), None), raw_json(ver, None, Some(o))] } else { vec![raw_json(ver, Some(c), Some(o))] };
    let good = build(&ver, &c, &o);
    let kind = r.below(13);
    let (files, what) = match kind {
        0 => {
            // a bad condition somewhere
            let t = if r.chance(1, 2) { &mut c } else { &mut o };
            let l = r.below(t.len() as u64) as usize;
            let cats = &mut t[l].1;
            // "other" has no condition of its own, but what is written there is input as well
            let k = if r.chance(1, 5) { cats.len() - 1 } else { r.below(cats.len() as u64 - 1) as usize };
            let bad = bad_condition(r, &cats[if k + 1 == cats.len() { 0 } else { k }].1.clone());
            let tail = if r.chance(1, 2) { " @integer 1, 2~5, …" } else { "" };
            cats[k].1 = format!("{}{}", bad, tail);
            let w = format!("condition {:?} in locale number {}", cats[k].1, l + 1);
            (build(&ver, &c, &o), w)
        }
        1 => {
            let t = if r.chance(1, 2) { &mut c } else { &mut o };
            let l = r.below(t.len() as u64) as usize;
            let bad = *r.pick(&["e", "en--US", "en-", "-en", "", "123", "en US", "é", "toolonglang", "en-Latn-Latn", "en-US-US", "en-u-ca-buddhist", "en-x-private", "ca-valencia", "de-1996", "en-Latn-US-fonipa", "sl-rozaj-biske", "*", "en;q=1", "en-US.UTF-8", "root-US-é", "a-DE", "Root", "ROOT", "root-US", " en", "en ", "en\n", "en\u{0}", "ｅｎ", "en-L", "en-12", "en-US-POSIX", "x-en", "i-klingon", "en@euro", "en/us", "en,de", "e1", "en-Latn-", "en-US-u-va-posix", "en-a", "root ", "supplemental", "sr-Latn-RS-ekavsk", "hy-arevela", "en-boont", "zh-Hant-TW-pinyin-wadegile"]);
            t[l].0 = bad.to_string();
            let w = format!("locale {:?}", bad);
            (build(&ver, &c, &o), w)
        }
        2 => {
            let bad = *r.pick(&["", "thirty", "37a", "v37", "0x25", "１２", "CLDR", "$Revision$", "37,1", "99999999999999999999999999", "37.1", "37.0", "37.", ".37", "37e0", " 37", "37 ", "37\n", "3 7", "3_7", "37-beta", "37alpha1", "٣٧", "37\u{0}", "NaN", "null", "37/38", "thirty-seven", "#37", "37%", "37usize", "37u64", "0b11", "'37'", "37;"]);
            (build(bad, &c, &o), format!("version {:?}", bad))
        }
        3 => {
            // one file of another version, with or without data of its own, among any number of others
            let n: u64 = ver.parse().unwrap();
            let other = match r.below(5) { 0 => (1000 + r.below(50)).to_string(), 1 => (n + 1).to_string(), 2 => (n * 10).to_string(), 3 => (n + 100).to_string(), _ => "x".into() };
            let mut f = good.clone();
            for _ in 0..r.below(3) { f.push(raw_json(&ver, None, None)); }
            let w = match r.below(3) {
                0 => { f.push(raw_json(&other, None, None)); "in a file without plural data" }
                _ if split => { let k = r.below(2) as usize; f[k] = if k == 0 { raw_json(&other, Some(&c), None) } else { raw_json(&other, None, Some(&o)) }; "in a file with data" }
                _ => { f.push(raw_json(&other, None, None)); "in a file without plural data" }
            };
            r.shuffle(&mut f);
            let w = format!("mixed versions {} and {} {}, {} files", ver, other, w, f.len());
            (f, w)
        }
        4 => {
            let mut f = vec![raw_json(&ver, Some(&c), None), raw_json(&ver, None, Some(&o))];
            let dup = if r.chance(1, 2) { raw_json(&ver, Some(&o), None) } else { raw_json(&ver, None, Some(&c)) };
            let dup = if r.chance(1, 3) { f[r.below(2) as usize].clone() } else { dup };
            let at = r.below(3) as usize;
            f.insert(at, dup);
            if r.chance(1, 3) { f = vec![raw_json(&ver, Some(&c), Some(&o)), raw_json(&ver, Some(&c), None)]; if r.chance(1, 2) { f.reverse(); } }
            else if r.chance(1, 4) { let t = raw_json(&ver, Some(&c), None); let k = t.find("\"plurals-type").unwrap(); let part = t[k..t.len() - 2].to_string(); f = vec![format!("{},{}}}}}", &t[..t.len() - 2], part)]; }
            if r.chance(1, 3) { let k = r.below(f.len() as u64 + 1) as usize; f.insert(k, raw_json(&ver, None, None)); }
            (f, "a rule type given twice".into())
        }
        5 => {
            // no data at all
            let f = match r.below(4) { 0 => vec![], 1 => vec![raw_json(&ver, None, None)], 2 => vec![raw_json(&ver, None, None), raw_json(&ver, None, None)], _ => vec![raw_json(&ver, Some(&c), None).replace("plurals-type-cardinal", "plurals-type-cardinals")] };
            (f, "no plural data".into())
        }
        6 => {
            // invalid JSON: cut anywhere
            let k = r.below(good.len() as u64) as usize;
            let mut f = good.clone();
            let cs: Vec<char> = f[k].chars().collect();
            let at = r.below(cs.len() as u64) as usize;
            f[k] = cs[..at].iter().collect();
            (f, format!("file {} cut after {} of {} characters", k, at, cs.len()))
        }
        7 => {
            let k = r.below(good.len() as u64) as usize;
            let mut f = good.clone();
            f[k].push_str(*r.pick(&["}", "x", "{}", "]", ",", "\"", " {\"supplemental\":{}}", "null"]));
            (f, format!("text after the JSON of file {}", k))
        }
        8 => {
            // structure faults
            let k = r.below(good.len() as u64) as usize;
            let mut f = good.clone();
            let (a, b) = *r.pick(&[("\"supplemental\"", "\"suplemental\""), ("\"version\"", "\"versions\""), ("\"_cldrVersion\"", "\"_cldrversion\""), ("\"_cldrVersion\":\"", "\"_cldrVersion\":[],\"x\":\""), ("{\"supplemental\":", "[\"supplemental\","), (":{\"pluralRule", ":[\"pluralRule"), ("\"plurals-type-", "\"version\":7,\"plurals-type-"), ("\"version\":{", "\"version\":\"37\",\"y\":{")]);
            f[k] = f[k].replacen(a, b, 1);
            (f, format!("{} replaced by {}", a, b))
        }
        9 => {
            // a rule that is not text
            let k = r.below(good.len() as u64) as usize;
            let mut f = good.clone();
            let pos: Vec<usize> = f[k].match_indices("\"pluralRule-count-").map(|(p, _)| p).collect();
            let p = *r.pick(&pos);
            let colon = p + f[k][p..].find(':').unwrap() + 1;
            let end = colon + 1 + f[k][colon + 1..].find('"').unwrap() + 1;
            let bad = *r.pick(&["7", "null", "true", "{}", "[]", "[\"n = 1\"]"]);
            f[k].replace_range(colon..end, bad);
            (f, format!("a rule given as {}", bad))
        }
        12 => {
            // a category without a condition
            let t = if r.chance(1, 2) { &mut c } else { &mut o };
            let l = r.below(t.len() as u64) as usize;
            let cats = &mut t[l].1;
            let k = r.below(cats.len() as u64 - 1) as usize;
            let bad = *r.pick(&["", " ", "\t", "\n", "   ", "@integer 1", " @integer 1, 2~5, …", " @decimal 0.5", "@", " @integer 0, 5~19 @decimal 0.0, 1.5"]);
            cats[k].1 = bad.into();
            let w = format!("{} with {:?} for its condition", cats[k].0, bad);
            (build(&ver, &c, &o), w)
        }
        10 => {
            // unknown category
            let t = if r.chance(1, 2) { &mut c } else { &mut o };
            let l = r.below(t.len() as u64) as usize;
            let cats = &mut t[l].1;
            let k = r.below(cats.len() as u64 - 1) as usize;
            let bad = *r.pick(&["pluralRule-count-some", "pluralRule-count-ONE", "pluralRule-count-", "pluralRule-count", "one", "pluralRule-count-1", "pluralRule-count-fewer", "pluralRule-count-one ", "pluralRule-count-One", "pluralRule-count-ones", "pluralRule-count-on", "pluralRule-count-0", "pluralRule-count-others", "pluralRule-count-Other", "pluralRule-count- one", "pluralRule-count-ｏne", "pluralRule-count-оne", "pluralRule-count-two\n", "pluralRule-count-single", "pluralRule-count-plural", "pluralRule_count_one", "pluralRule-count_one", "pluralRule", "-one", ""]);
            cats[k].0 = bad.into();
            (build(&ver, &c, &o), format!("category key {:?}", bad))
        }
        _ => {
            // a bad file among good ones
            let mut f = good.clone();
            let bad = r.pick(&["", " ", "{}", "[]", "null", "not json", "{\"supplemental\":{}}", "\u{feff}{}", "{\"supplemental\":{\"version\":{}}}"]).to_string();
            let at = r.below(f.len() as u64 + 1) as usize;
            f.insert(at, bad.clone());
            (f, format!("file {:?} among good ones", bad))
        }
    };
    (Fault { files, what }, good)
}
fn bad_condition(r: &mut Rng, good: &str) -> String {
    loop {
        let t = match r.below(4) {
            0 => r.pick(BAD_CONDITIONS).to_string(),
            1 => format!("{} {} {}", good, r.pick(&["and", "or"]), r.pick(BAD_CONDITIONS)),
            2 => format!("{} {}", r.pick(BAD_CONDITIONS), good),
            _ => crate::parsechecks::mutate(r, good),
        };
        if not_a_condition(&t) { return t; }
    }
}
/// True when the text is certainly not a UTS 35 condition, however generously blanks are read.
/// (The generator only reads what is in front of an '@'.)
pub fn not_a_condition(t: &str) -> bool {
    if t.contains('@') { return false; }
    let t: String = t.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect();
    let t = t.trim();
    if t.is_empty() { return false; }
    // blanks around the dots and inside operators do not matter here
    let mut s = t.to_string();
    while s.contains("  ") { s = s.replace("  ", " "); }
    let s = s.replace(" ..", "..").replace(".. ", "..");
    if parse_rule(&s).is_some() { return false; }
    // a reading without any blanks must fail as well
    let tight: String = crate::parsechecks::canon(&s);
    let loose = tight.replace("and", " and ").replace("or", " or ").replace("isnot", " is not ").replace("is", "is ").replace("notwithin", " not within ").replace("notin", " not in ");
    parse_rule(loose.trim()).is_none()
}
/// Texts close to the key, none of them the key. (Plain characters only: they are put into JSON as they are.)
fn misspellings(key: &str) -> BTreeSet<String> {
    let cs: Vec<char> = key.chars().collect();
    let s = |c: &[char]| c.iter().collect::<String>();
    let mut v: BTreeSet<String> = BTreeSet::new();
    for k in 0..cs.len() {
        let mut a = cs.clone();
        a.remove(k);
        v.insert(s(&a));
        for x in ['s', '_', '-', ' ', 'a', '1', '.', ':', '\u{e9}', '\u{200b}', '\u{feff}', cs[k]] { let mut a = cs.clone(); a.insert(k, x); v.insert(s(&a)); let mut a = cs.clone(); a[k] = x; v.insert(s(&a)); }
        let mut a = cs.clone();
        a[k] = if cs[k].is_uppercase() { cs[k].to_ascii_lowercase() } else { cs[k].to_ascii_uppercase() };
        v.insert(s(&a));
        if k + 1 < cs.len() { let mut a = cs.clone(); a.swap(k, k + 1); v.insert(s(&a)); }
        if k > 0 { v.insert(s(&cs[..k])); v.insert(s(&cs[k..])); }
    }
    for x in ["s", "es", "Type", "_", "-", " ", "\u{a0}", "1", "-v2", "Rules", ".0"] { v.insert(format!("{}{}", key, x)); v.insert(format!("{}{}", x, key)); }
    v.insert(key.to_uppercase());
    v.insert(key.to_lowercase());
    let camel: String = key.split(|c| c == '-' || c == '_').filter(|p| !p.is_empty()).enumerate().map(|(n, p)| if n == 0 { p.to_string() } else { format!("{}{}", p[..1].to_uppercase(), &p[1..]) }).collect();
    v.insert(camel);
    for (a, b) in [("-", "_"), ("_", "-"), ("-", ""), ("_", ""), ("plurals-", "plural-"), ("plurals-type-", ""), ("type-", ""), ("plurals-type-", "plurals-"), ("cldr", "unicode"), ("pluralRule", "pluralRules"), ("pluralRule-count-", ""), ("pluralRule-", ""), ("count-", ""), ("pluralRule-count-", "pluralRule-category-"), ("count", "ordinal"), ("Version", "-version"), ("Version", "_version"), ("_cldrVersion", "_number"), ("_cldrVersion", "cldr"), ("_cldrVersion", "@cldrVersion"), ("_cldrVersion", "number"), ("supplemental", "supplementalData"), ("supplemental", "main"), ("version", "_version"), ("version", "identity")] { v.insert(key.replace(a, b)); }
    v.remove(key);
    v
}
pub fn c13(env: &Env) -> ! {
    let mut rep = Report::new(env, "C13");
    let dir = scratch(env, "C13");
    let chunks: Vec<u64> = (0..64).collect();
    let per = env.scale(900, 12000);
    let cli_per = env.scale(16, 80);
    let outs = par(&chunks, |_, ch| {
        let mut sub = Report::new(env, "C13");
        let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
        let mut distinct = Distinct::default();
        let mut r = Rng::new(env.seed, &format!("C13/{}", ch));
        for k in 0..per {
            let (f, good) = gen_fault(&mut r);
            if !distinct.add(&f.files) { continue; }
            sub.evaluations += 1;
            let word: String = f.what.split(|c: char| !c.is_ascii_alphabetic()).next().unwrap_or("").into();
            *kinds.entry(word).or_insert(0) += 1;
            // the input without the fault is accepted: the refusal is due to the fault
            if k % 4 == 0 { if let Err(e) = generate(&good) { sub.violate(format!("faultless input is refused: {}", clip(&e)), json!(["files", good])); } sub.evaluations += 1; }
            if generate(&f.files).is_ok() { sub.violate(format!("{}: code is generated", f.what), json!(["files", f.files])); }
            if k < cli_per {
                let mut paths = Vec::new();
                for (n, t) in f.files.iter().enumerate() { let p = dir.join(format!("{}-{}-{}.json", ch, k, n)); std::fs::write(&p, t).unwrap(); paths.push(p); }
                if !paths.is_empty() {
                    let out = dir.join(format!("{}-{}.rs", ch, k));
                    let refs: Vec<&std::path::Path> = paths.iter().map(|p| p.as_path()).collect();
                    let ran = cli(env, &refs, &out, k % 2 == 0);
                    sub.evaluations += 1;
                    if ran.ok() { sub.violate(format!("{}: the tool exits successfully", f.what), json!(["files", f.files])); }
                    if out.exists() { sub.violate(format!("{}: the tool writes an output file", f.what), json!(["files", f.files])); }
                }
                for p in paths { let _ = std::fs::remove_file(p); }
            }
            if k == 3 && *ch < 12 { sub.sample(json!(f.what)); }
        }
        (sub, kinds, distinct)
    });
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut d = Distinct::default();
    for (s, k, x) in outs {
        rep.evaluations += s.evaluations;
        rep.total_violations += s.total_violations;
        if rep.violations.len() < 20 { rep.violations.extend(s.violations); }
        for s in s.samples { rep.sample(s); }
        for (a, b) in k { *kinds.entry(a).or_insert(0) += b; }
        d.merge(x);
    }
    // one file named several times, in one or several spellings
    {
        let mut r = Rng::new(env.seed, "C13/twice");
        let mut loc = |n: &str| (n.to_string(), vec![("pluralRule-count-one".to_string(), format!("i = {}", r.below(100)))]);
        let (c, o): (Raw, Raw) = (vec![("en".to_string(), vec![("pluralRule-count-one".to_string(), "i = 1".to_string())])], vec![loc("de")]);
        let d = dir.join("twice");
        std::fs::create_dir_all(d.join("sub")).unwrap();
        let (a, b, ab, ver) = (d.join("a.json"), d.join("b.json"), d.join("ab.json"), d.join("v.json"));
        std::fs::write(&a, raw_json("37", Some(&c), None)).unwrap();
        std::fs::write(&b, raw_json("37", None, Some(&o))).unwrap();
        std::fs::write(&ab, raw_json("37", Some(&c), Some(&o))).unwrap();
        std::fs::write(&ver, raw_json("37", None, None)).unwrap();
        let (dot, link, hard, copy) = (d.join("sub/../a.json"), d.join("link.json"), d.join("hard.json"), d.join("copy.json"));
        std::os::unix::fs::symlink(&a, &link).unwrap();
        std::fs::hard_link(&a, &hard).unwrap();
        std::fs::copy(&a, &copy).unwrap();
        let sets: Vec<Vec<&std::path::PathBuf>> = vec![vec![&a, &a], vec![&b, &b], vec![&ab, &ab], vec![&a, &b, &a], vec![&a, &b, &b], vec![&a, &a, &b], vec![&a, &dot], vec![&a, &link], vec![&hard, &a], vec![&a, &copy], vec![&a, &a, &a], vec![&a, &ver, &a], vec![&ver, &ab, &ver, &ab], vec![&a, &ab], vec![&ab, &b]];
        for (k, set) in sets.iter().enumerate() { for ugly in [false, true] {
            let out = d.join(format!("out{}{}.rs", k, ugly));
            let refs: Vec<&std::path::Path> = set.iter().map(|p| p.as_path()).collect();
            let ran = cli(env, &refs, &out, ugly);
            rep.evaluations += 1;
            let names: Vec<String> = set.iter().map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).collect();
            if ran.ok() { rep.violate(format!("a rule type given twice by the files {}: the tool exits successfully", names.join(" ")), json!(["same file twice", names])); }
            if out.exists() { rep.violate(format!("a rule type given twice by the files {}: the tool writes an output file", names.join(" ")), json!(["same file twice", names])); }
        } }
        // the same without the repetition is accepted
        for (k, set) in [vec![&a, &b], vec![&ab], vec![&link, &b]].iter().enumerate() {
            let refs: Vec<&std::path::Path> = set.iter().map(|p| p.as_path()).collect();
            rep.evaluations += 1;
            let ran = cli(env, &refs, &d.join(format!("good{}.rs", k)), true);
            if !ran.ok() { rep.violate(format!("faultless files are refused: {}", clip(&ran.stderr)), json!(["files", k])); }
        }
    }
    // each bad condition and each position in a fixed set of locales
    let mut pos = 0;
    for bad in BAD_CONDITIONS {
        assert!(not_a_condition(bad), "{}", bad);
        for n in 0..3usize { for at in 0..3usize { for two in [false, true] {
            if at > n { continue; }
            let mut c: Raw = (0..=n).map(|k| (format!("a{}", (b'a' + k as u8) as char), vec![("pluralRule-count-few".to_string(), "n = 2".to_string()), ("pluralRule-count-one".into(), "i = 1 and v = 0".into())])).collect();
            c[at].1[two as usize].1 = bad.to_string();
            pos += 1;
            rep.evaluations += 1;
            if generate(&[raw_json("30", Some(&c), None)]).is_ok() { rep.violate(format!("condition {:?}, rule {} of locale {} of {}: code is generated", bad, two as usize + 1, at + 1, n + 1), json!(["files", [raw_json("30", Some(&c), None)]])); }
        } } }
    }
    // every prefix of a small file
    let f = raw_json("30", Some(&vec![("en".into(), vec![("pluralRule-count-one".into(), "i = 1 and v = 0 @integer 1".into())])]), None);
    for k in 0..f.len() { rep.evaluations += 1; if generate(&[f[..k].to_string()]).is_ok() { rep.violate(format!("a file cut after {} bytes gives code", k), json!(["files", [&f[..k]]])); } }
    if generate(&[f.clone()]).is_err() { rep.violate("a faultless file is refused".into(), json!(["files", [f]])); }
    // every key the data hangs on, misspelt in every small way
    let mut keys = 0;
    for ty in ["cardinal", "ordinal"] {
        let t = raw_json("30", None, None);
        let t = format!("{},\"plurals-type-{}\":{{\"en\":{{\"pluralRule-count-one\":\"i = 1\",\"pluralRule-count-other\":\"\"}}}}}}}}", &t[..t.len() - 2], ty);
        if let Err(e) = generate(&[t.clone()]) { rep.violate(format!("a faultless file is refused: {}", clip(&e)), json!(["files", [t]])); }
        for key in ["supplemental", "version", "_cldrVersion", &format!("plurals-type-{}", ty)] {
            for bad in misspellings(key) {
                let other = if ty == "cardinal" { "ordinal" } else { "cardinal" };
                if bad == format!("plurals-type-{}", other) { continue; }
                let f = t.replacen(&format!("\"{}\"", key), &format!("\"{}\"", bad), 1);
                keys += 1;
                rep.evaluations += 1;
                if generate(&[f.clone()]).is_ok() { rep.violate(format!("key {:?} for {:?}: code is generated", bad, key), json!(["files", [f]])); }
            }
        }
        for cat in KEYS {
            let key = format!("pluralRule-count-{}", cat);
            for bad in misspellings(&key) {
                if KEYS.iter().any(|k| bad == format!("pluralRule-count-{}", k)) { continue; }
                let f = t.replacen("\"pluralRule-count-one\"", &format!("\"{}\"", bad), 1);
                keys += 1;
                rep.evaluations += 1;
                if generate(&[f.clone()]).is_ok() { rep.violate(format!("category key {:?}: code is generated", bad), json!(["files", [f]])); }
            }
        }
    }
    // words that are no category
    for w in crate::dict::dict().texts.iter().map(|s| s.as_str()).chain(["none", "some", "more", "less", "all", "default", "single", "singular", "plural", "dual", "trial", "paucal", "multal", "half", "exact", "0", "1", "2", "=0", "=1", "any", "rest", "else", "three", "five", "several", "nullar", "null", "true", "otherwise", "many-few", "one-alt", "one-alt-variant", "other-other"]) {
        if KEYS.contains(&w) { continue; }
        for key in [format!("pluralRule-count-{}", w), w.to_string(), format!("pluralRule-{}-one", w), format!("{}-count-one", w)] {
            if KEYS.iter().any(|k| key == format!("pluralRule-count-{}", k)) { continue; }
            let c: Raw = vec![("de".into(), vec![("pluralRule-count-one".to_string(), "i = 1".to_string())]), ("en".into(), vec![(key.clone(), "i = 1".to_string()), ("pluralRule-count-other".into(), String::new())])];
            keys += 1;
            rep.evaluations += 1;
            let f = raw_json("30", None, Some(&c));
            if generate(&[f.clone()]).is_ok() { rep.violate(format!("category key {:?}: code is generated", key), json!(["files", [f]])); }
        }
    }
    rep.put("misspelt_keys", json!(keys));
    rep.put("bad_condition_positions", json!(pos));
    rep.put("fault_kinds", json!(kinds));
    rep.distinct = d.len() + pos;
    if kinds.len() < 8 { rep.inconclusive.push("too few kinds of faults".into()); }
    rep.rule = "one fault per input at a random (and for a fixed list, every) position: bad condition, locale, category, version, JSON, structure, duplicate type, missing data; the library call must not return code and the tool must exit with an error and write nothing; inputs without the fault must be accepted; distinct counts distinct inputs".into();
    rep.assumptions.push("a condition counts as faulty only when the reference parser refuses it in every reading of its blanks".into());
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish(env)
}

// ---------------------------------------------------------------- C14

pub fn c14(env: &Env) -> ! {
    use crate::carriers::*;
    use crate::libchecks::{create, rule_type};
    let mut rep = Report::new(env, "C14");
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let dir = scratch(env, "C14");
    let c = PathBuf::from(format!("{}/intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json", repo));
    let o = PathBuf::from(format!("{}/intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json", repo));
    let out = dir.join("rules.rs");
    let ran = cli(env, &[&c, &o], &out, false);
    rep.evaluations += 1;
    if !ran.ok() {
        rep.violate(format!("the bundled data is refused by the tool: {}", clip(&ran.stderr)), json!(["regenerate"]));
        rep.finish(env);
    }
    match build_runner(env, &dir, &[out]) {
        Built::Failed(e) => rep.inconclusive.push(format!("the runner does not build: {}", e)),
        Built::GeneratedBroken(_, e) => rep.violate(format!("the regenerated rules do not compile: {}", e), json!(["regenerate"])),
        Built::Ok(bin) => {
            let cl = cldr::load(&env.root);
            let mut qs = vec!["V 0".to_string(), "L 0 C".into(), "L 0 O".into()];
            let mut jobs: Vec<(&'static str, String)> = Vec::new();
            for (t, ty) in [("C", "cardinal"), ("O", "ordinal")] {
                for id in intl_pluralrules::PluralRules::get_locales(rule_type(ty)) { jobs.push((t, id.to_string())); }
            }
            let common = nums::common(env.scale(3000, 60_000));
            let prepared = par(&jobs, |n, (t, id)| {
                let mut r = Rng::new(env.seed, &format!("C14/{}", n));
                let locs = if *t == "C" { &cl.cardinal } else { &cl.ordinal };
                let mut v = common.clone();
                if let Some(l) = locs.iter().find(|l| l.name == *id) { v.extend(crate::libchecks::numbers_for(l, &mut r, env.scale(10, 60) as usize, env.scale(3000, 30_000) as usize, 1000)); }
                let q = format!("S 0 {} {} {}", t, id, v.iter().map(|d| ops_token(&d.ops().unwrap())).collect::<Vec<_>>().join(" "));
                (v, q)
            });
            let (numbers, q2): (Vec<Vec<Dec>>, Vec<String>) = prepared.into_iter().unzip();
            qs.extend(q2);
            match ask(&bin, &dir, &qs) {
                Err(e) => rep.inconclusive.push(e),
                Ok(ans) => {
                    rep.evaluations += 3;
                    if ans[0] != intl_pluralrules::CLDR_VERSION.to_string() { rep.violate(format!("shipped CLDR version {}, regenerated {}", intl_pluralrules::CLDR_VERSION, ans[0]), json!(["version"])); }
                    for (k, ty) in [(1, "cardinal"), (2, "ordinal")] {
                        let a: BTreeSet<String> = ans[k].split(' ').map(|s| s.to_string()).collect();
                        let b: BTreeSet<String> = intl_pluralrules::PluralRules::get_locales(rule_type(ty)).iter().map(|s| s.to_string()).collect();
                        for x in a.symmetric_difference(&b) { rep.violate(format!("{} locale {} is only {}", ty, x, if a.contains(x) { "regenerated, not shipped" } else { "shipped, not regenerated" }), json!(["locale", ty, x])); }
                        // the bundled data itself
                        let file = if k == 1 { &c } else { &o };
                        let j: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap_or_default()).unwrap_or(Value::Null);
                        let names: BTreeSet<String> = j["supplemental"][format!("plurals-type-{}", ty)].as_object().map(|m| m.keys().filter(|k| *k != "root").map(|k| canon_id(k).unwrap_or(k.clone())).collect()).unwrap_or_default();
                        for x in names.symmetric_difference(&b) { rep.violate(format!("{} locale {} is only {}", ty, x, if b.contains(x) { "shipped, not in the bundled data" } else { "in the bundled data, not shipped" }), json!(["locale", ty, x])); }
                    }
                    let all: Vec<(usize, &(&'static str, String))> = jobs.iter().enumerate().collect();
                    let outs = par(&all, |_, (n, (t, id))| {
                        let ty = if *t == "C" { "cardinal" } else { "ordinal" };
                        let mut bad = Vec::new();
                        let a: Vec<char> = ans[n + 3].chars().collect();
                        let pr = match create(id, rule_type(ty)) { Ok(p) => p, Err(e) => return (0, vec![(format!("{} {}: listed, but {}", ty, id, e), json!(["create", ty, id]))]) };
                        if a.len() != numbers[*n].len() { return (0, vec![(format!("{} {}: not found in the regenerated rules", ty, id), json!(["create", ty, id]))]); }
                        for (d, g) in numbers[*n].iter().zip(&a) {
                            let s = select(&pr, po(&d.ops().unwrap()));
                            let same = matches!((&s, g.to_digit(10)), (Out::Cat(x), Some(y)) if *x as u32 == y);
                            if !same && bad.len() < 2 { bad.push((format!("{} {}: {} is {} by the shipped rules, {} by the regenerated ones", ty, id, d.text(), crate::libchecks::show(&s), g.to_digit(10).map(|c| CATS[c as usize]).unwrap_or("?")), crate::libchecks::select_case(ty, id, C::Operands, d))); }
                        }
                        (a.len() as u64, bad)
                    });
                    for (n, b) in outs { rep.evaluations += n; rep.distinct += n; for (s, c) in b { rep.violate(s, c); } }
                }
            }
            rep.put("locales_compared", json!(jobs.len()));
        }
    }
    rep.sample(json!("regenerated from the bundled cldr_data with the tool built from the tree, compiled in a copy of the library"));
    rep.rule = "the bundled data through the real tool, compiled in a copy of the library, against the shipped library: version, locale lists, and select on the same operands per locale; distinct counts (type, locale, number)".into();
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish(env)
}
