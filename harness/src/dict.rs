//! Workload dictionary: the literals of the sources under test. They steer where the workloads look
//! (a bug usually sits at a constant somebody wrote), never what a monitor expects.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict { pub ints: Vec<u64>, pub moduli: Vec<u64>, pub texts: Vec<String>, pub chars: Vec<char> }

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let mut s = Sets::default();
        for c in ["intl_pluralrules/src", "cldr_pluralrules_parser/src", "make_pluralrules/src"] { walk(&Path::new(&repo).join(c), &mut s); }
        // the shipped tables hold thousands of literals; what is rare counts
        let mut ints: Vec<u64> = s.ints.into_iter().collect();
        if ints.len() > 1500 { ints.truncate(1500); }
        Dict { ints, moduli: s.moduli.into_iter().filter(|m| *m > 1).take(60).collect(), texts: s.texts.into_iter().take(600).collect(), chars: s.chars.into_iter().take(200).collect() }
    })
}
#[derive(Default)]
struct Sets { ints: BTreeSet<u64>, moduli: BTreeSet<u64>, texts: BTreeSet<String>, chars: BTreeSet<char> }
fn walk(d: &Path, s: &mut Sets) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() { walk(&p, s) } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            if let Ok(t) = std::fs::read(&p) { scan(&String::from_utf8_lossy(&t), s) }
        }
    }
}
fn scan(t: &str, s: &mut Sets) {
    let c: Vec<char> = t.chars().collect();
    let mut k = 0;
    let mut prev = ' ';
    while k < c.len() {
        let x = c[k];
        if x == '/' && c.get(k + 1) == Some(&'/') { while k < c.len() && c[k] != '\n' { k += 1; } continue; }
        if x == '"' {
            let mut o = String::new();
            k += 1;
            while k < c.len() && c[k] != '"' {
                if c[k] == '\\' && k + 1 < c.len() { k += 1; match c[k] { 'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), '0' => o.push('\0'), q => o.push(q) } } else { o.push(c[k]); }
                k += 1;
            }
            k += 1;
            if !o.is_empty() && o.chars().count() <= 40 { s.texts.insert(o); }
            prev = '"';
            continue;
        }
        if x == '\'' && c.get(k + 2) == Some(&'\'') && c[k + 1] != '\\' { s.chars.insert(c[k + 1]); k += 3; prev = '\''; continue; }
        if x.is_ascii_digit() && !(prev.is_alphanumeric() || prev == '_') {
            let a = k;
            while k < c.len() && (c[k].is_ascii_alphanumeric() || c[k] == '_') { k += 1; }
            let w: String = c[a..k].iter().filter(|x| **x != '_').collect();
            let v = if let Some(h) = w.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                u64::from_str_radix(&h, 16).ok()
            } else {
                let d: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
                match w[d.len()..].strip_prefix('e').and_then(|e| e.parse::<u32>().ok()) {
                    Some(e) if e < 20 => d.parse::<u64>().ok().and_then(|d| d.checked_mul(10u64.pow(e))),
                    _ => d.parse().ok(),
                }
            };
            if let Some(v) = v {
                // packed identifiers of the tables are no numbers of interest
                s.ints.insert(v);
                let before: String = c[a.saturating_sub(3)..a].iter().collect();
                if before.trim_end().ends_with('%') || before.ends_with("m_") { s.moduli.insert(v); }
            }
            prev = '0';
            continue;
        }
        prev = x;
        k += 1;
    }
}
