//! Rule sets as data, their CLDR JSON, the make_pluralrules process, and the runner: a copy of the
//! library with regenerated rules, compiled and called through its public API.
use crate::dec::Ops;
use crate::refsem::*;
use crate::report::Env;
use crate::rng::Rng;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const KEYS: [&str; 6] = ["zero", "one", "two", "few", "many", "other"];

#[derive(Clone, Debug, Default)]
pub struct LocRules { pub name: String, pub rules: Vec<(u8, Cond)> }
#[derive(Clone, Debug, Default)]
pub struct RuleSet { pub version: String, pub cardinal: Option<Vec<LocRules>>, pub ordinal: Option<Vec<LocRules>> }

pub fn jstr(s: &str) -> String { serde_json::to_string(s).unwrap() }
/// How the JSON text is laid out; none of this is data.
#[derive(Clone, Debug, Default)]
pub struct Layout { pub shuffle: bool, pub pretty: bool, pub escape: bool, pub samples: bool, pub other: bool }
fn jtext(r: &mut Rng, l: &Layout, s: &str) -> String {
    if !l.escape || !r.chance(1, 4) { return jstr(s); }
    let mut o = String::from("\"");
    for c in s.chars() {
        if c.is_ascii_alphanumeric() && r.chance(1, 5) { o.push_str(&format!("\\u{:04x}", c as u32)); } else if c == '"' || c == '\\' { o.push('\\'); o.push(c); } else { o.push(c); }
    }
    o.push('"');
    o
}
fn obj(r: &mut Rng, l: &Layout, depth: usize, mut items: Vec<(String, String)>) -> String {
    if l.shuffle { r.shuffle(&mut items); }
    let (nl, ind, end) = if l.pretty { ("\n".to_string(), "  ".repeat(depth + 1), "  ".repeat(depth)) } else { (String::new(), String::new(), String::new()) };
    let sep = if l.pretty { " " } else if l.shuffle && r.chance(1, 3) { "\t" } else { "" };
    let body: Vec<String> = items.into_iter().map(|(k, v)| format!("{}{}:{}{}", ind, jtext(r, l, &k), sep, v)).collect();
    format!("{{{}{}{}{}}}", nl, body.join(&format!(",{}", nl)), nl, end)
}
pub fn sample_text(r: &mut Rng) -> String {
    let mut t = String::new();
    let i = if r.chance(2, 3) { Some(crate::parsechecks::gen_slist(r, false)) } else { None };
    let d = if r.chance(1, 2) { Some(crate::parsechecks::gen_slist(r, true)) } else { None };
    crate::parsechecks::print_samples(r, 1, &i, &d, &mut t);
    t
}
pub fn rules_json(r: &mut Rng, l: &Layout, depth: usize, locs: &[LocRules]) -> String {
    let items = locs.iter().map(|loc| {
        let mut cats: Vec<(String, String)> = loc.rules.iter().map(|(k, c)| {
            let s = if l.samples { sample_text(r) } else { String::new() };
            let t = format!("{}{}", cond_text(c), s);
            (format!("pluralRule-count-{}", KEYS[*k as usize]), jtext(r, l, &t))
        }).collect();
        if l.other { let s = if l.samples { sample_text(r) } else { String::new() }; cats.push(("pluralRule-count-other".into(), jtext(r, l, &s))); }
        (loc.name.clone(), obj(r, l, depth + 1, cats))
    }).collect();
    obj(r, l, depth, items)
}
pub fn file_json(r: &mut Rng, l: &Layout, version: &str, cardinal: Option<&[LocRules]>, ordinal: Option<&[LocRules]>) -> String {
    let mut v = vec![("_unicodeVersion".to_string(), jstr("12.1.0")), ("_cldrVersion".to_string(), jstr(version))];
    if !l.shuffle || r.chance(1, 2) { v.push(("_number".into(), jstr("$Revision: 1 $"))); }
    let mut sup = vec![("version".to_string(), obj(r, l, 2, v))];
    if let Some(c) = cardinal { let t = rules_json(r, l, 2, c); sup.push(("plurals-type-cardinal".into(), t)); }
    if let Some(c) = ordinal { let t = rules_json(r, l, 2, c); sup.push(("plurals-type-ordinal".into(), t)); }
    let s = obj(r, l, 1, sup);
    obj(r, l, 0, vec![("supplemental".into(), s)])
}
pub const PLAIN: Layout = Layout { shuffle: false, pretty: true, escape: false, samples: true, other: true };

// ---------------------------------------------------------------- the tool

#[derive(Debug, Clone)]
pub struct Ran { pub code: Option<i32>, pub stderr: String, pub endless: bool }
impl Ran { pub fn ok(&self) -> bool { self.code == Some(0) } }
extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
/// Seconds after which a run of the tool (which takes well below one) is called endless.
pub const ENDLESS: u64 = 150;
/// A run was endless: the others need not be waited for.
pub static HUNG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn run(mut c: Command) -> std::io::Result<Ran> {
    use std::io::Read;
    std::os::unix::process::CommandExt::process_group(&mut c, 0);
    let mut kid = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    let (mut o, mut e) = (kid.stdout.take().unwrap(), kid.stderr.take().unwrap());
    let t1 = std::thread::spawn(move || { let _ = std::io::copy(&mut o, &mut std::io::sink()); });
    let t2 = std::thread::spawn(move || { let mut v = Vec::new(); let _ = e.read_to_end(&mut v); v });
    let start = std::time::Instant::now();
    let mut pause = 1;
    let mut endless = false;
    let status = loop {
        if let Some(s) = kid.try_wait()? { break s; }
        if start.elapsed().as_secs() >= ENDLESS { endless = true; HUNG.store(true, std::sync::atomic::Ordering::Relaxed); unsafe { kill(-(kid.id() as i32), 9); } break kid.wait()?; }
        std::thread::sleep(std::time::Duration::from_millis(pause));
        pause = (pause + 1).min(20);
    };
    let _ = t1.join();
    let err = t2.join().unwrap_or_default();
    Ok(Ran { code: status.code(), stderr: String::from_utf8_lossy(&err).chars().take(3000).collect(), endless })
}
pub fn cli(env: &Env, inputs: &[&Path], out: &Path, ugly: bool) -> Ran {
    let mut c = Command::new(&env.cli);
    c.arg("-i");
    for i in inputs { c.arg(i); }
    c.arg("-o").arg(out);
    if ugly { c.arg("-u"); }
    run(c).expect("the tool starts")
}
pub fn scratch(env: &Env, tag: &str) -> PathBuf {
    let p = PathBuf::from(format!("{}/{}-{}", env.work, tag, std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}

// ---------------------------------------------------------------- the runner

fn copy_tree(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).expect("library directory") {
        let e = e.unwrap();
        let name = e.file_name();
        if name == "target" || name == ".cargo" || name == "tests" || name == "benches" { continue; }
        let to = b.join(&name);
        if e.file_type().unwrap().is_dir() { copy_tree(&e.path(), &to) } else { std::fs::copy(e.path(), &to).unwrap(); }
    }
}
pub enum Built { Ok(PathBuf), GeneratedBroken(usize, String), Failed(String) }
const RUNNER: &str = r#"
use std::io::{BufRead, Write};
fn ops(s: &str) -> (f64, u64, usize, usize, u64, u64) {
    let p: Vec<&str> = s.split(':').collect();
    (f64::from_bits(u64::from_str_radix(p[0], 16).unwrap()), p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap(), p[4].parse().unwrap(), p[5].parse().unwrap())
}
macro_rules! set { ($m:ident) => { mod $m {
    use ::$m::{PluralRules, PluralRuleType, PluralCategory, operands::PluralOperands};
    pub fn version() -> String { ::$m::CLDR_VERSION.to_string() }
    fn ty(t: &str) -> PluralRuleType { if t == "C" { PluralRuleType::CARDINAL } else { PluralRuleType::ORDINAL } }
    pub fn locales(t: &str) -> String { PluralRules::get_locales(ty(t)).iter().map(|l| l.to_string()).collect::<Vec<_>>().join(" ") }
    pub fn select(t: &str, loc: &str, nums: &[&str]) -> String {
        let id: unic_langid::LanguageIdentifier = loc.parse().unwrap();
        let pr = match PluralRules::create(id, ty(t)) { Ok(p) => p, Err(_) => return "!".into() };
        nums.iter().map(|s| { let (n, i, v, w, f, t) = super::ops(s);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pr.select(PluralOperands { n, i, v, w, f, t }))) {
                Ok(Ok(c)) => match c { PluralCategory::ZERO => '0', PluralCategory::ONE => '1', PluralCategory::TWO => '2', PluralCategory::FEW => '3', PluralCategory::MANY => '4', PluralCategory::OTHER => '5' },
                Ok(Err(_)) => 'E', Err(_) => 'P' } }).collect()
    }
} } }
"#;
/// Copies the library once per rules file, compiles all copies and a program that answers queries.
pub fn build_runner(env: &Env, dir: &Path, rules: &[PathBuf]) -> Built {
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let run_dir = dir.join("run");
    std::fs::create_dir_all(run_dir.join("src")).unwrap();
    let mut deps = String::new();
    let mut main = String::from(RUNNER);
    let mut arms = [String::new(), String::new(), String::new()];
    for (k, r) in rules.iter().enumerate() {
        let d = dir.join(format!("s{}", k));
        copy_tree(Path::new(&format!("{}/intl_pluralrules", repo)), &d);
        let toml = std::fs::read_to_string(d.join("Cargo.toml")).unwrap();
        // Own name; no benches or tests.
        let mut keep = true;
        let mut t = String::new();
        for line in toml.lines() {
            let l = line.trim();
            if l.starts_with('[') { keep = !(l.starts_with("[[bench") || l.starts_with("[[test") || l.starts_with("[dev-dep") || l.starts_with("[workspace")); }
            if !keep { continue; }
            if l.starts_with("name") && l.contains("intl_pluralrules") { t.push_str(&format!("name = \"s{}\"\n", k)); } else { t.push_str(line); t.push('\n'); }
        }
        std::fs::write(d.join("Cargo.toml"), t).unwrap();
        std::fs::copy(r, d.join("src/rules.rs")).unwrap();
        deps.push_str(&format!("s{} = {{ path = \"../s{}\" }}\n", k, k));
        main.push_str(&format!("set!(s{});\n", k));
        arms[0].push_str(&format!("\"{}\" => s{}::version(), ", k, k));
        arms[1].push_str(&format!("\"{}\" => s{}::locales(p[2]), ", k, k));
        arms[2].push_str(&format!("\"{}\" => s{}::select(p[2], p[3], &p[4..]), ", k, k));
    }
    main.push_str(&format!("fn main() {{ std::panic::set_hook(Box::new(|_| {{}})); let f = std::fs::File::open(std::env::args().nth(1).unwrap()).unwrap(); let out = std::io::stdout(); let mut out = out.lock();\n for line in std::io::BufReader::new(f).lines() {{ let line = line.unwrap(); let p: Vec<&str> = line.split(' ').collect(); let a: String = match p[0] {{ \"V\" => match p[1] {{ {} _ => panic!() }}, \"L\" => match p[1] {{ {} _ => panic!() }}, \"S\" => match p[1] {{ {} _ => panic!() }}, _ => panic!() }}; writeln!(out, \"{{}}\", a).unwrap(); }} }}\n", arms[0], arms[1], arms[2]));
    std::fs::write(run_dir.join("src/main.rs"), main).unwrap();
    let checks = std::env::var("VERIF_PROFILE").map_or(true, |p| p != "plain");
    std::fs::write(run_dir.join("Cargo.toml"), format!("[package]\nname = \"run\"\nversion = \"0.1.0\"\nedition = \"2018\"\n[workspace]\n[dependencies]\nunic-langid = \"0.9\"\n{}[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\noverflow-checks = {}\ndebug-assertions = {}\n", deps, checks, checks)).unwrap();
    let _ = std::fs::copy(format!("{}/harness/Cargo.lock", env.root), run_dir.join("Cargo.lock"));
    let target = dir.join("target");
    let out = Command::new("cargo").args(["build", "--offline", "-q", "--color", "never"]).current_dir(&run_dir)
        .env("CARGO_TARGET_DIR", &target).env_remove("RUSTFLAGS").stdin(Stdio::null()).output();
    let out = match out { Ok(o) => o, Err(e) => return Built::Failed(e.to_string()) };
    if out.status.success() { return Built::Ok(target.join("debug/run")); }
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    // errors located in a generated file
    let lines: Vec<&str> = err.lines().collect();
    for (k, l) in lines.iter().enumerate() {
        let m = lines.get(k + 1).map(|s| s.trim()).unwrap_or("");
        if l.starts_with("error") && m.starts_with("--> ") && m.contains("/rules.rs:") {
            for s in (0..rules.len()).rev() {
                if m.contains(&format!("s{}/src/rules.rs", s)) { return Built::GeneratedBroken(s, lines[k..(k + 12).min(lines.len())].join("\n")); }
            }
            // the path may be relative to the crate
            for s in 0..rules.len() { if err.contains(&format!("could not compile `s{}`", s)) { return Built::GeneratedBroken(s, lines[k..(k + 12).min(lines.len())].join("\n")); } }
        }
    }
    Built::Failed(err.chars().take(4000).collect())
}
pub fn ops_token(o: &Ops) -> String { format!("{:x}:{}:{}:{}:{}:{}", o.n.to_bits(), o.i, o.v, o.w, o.f, o.t) }
pub fn ask(bin: &Path, dir: &Path, queries: &[String]) -> Result<Vec<String>, String> {
    let q = dir.join("queries.txt");
    std::fs::write(&q, queries.join("\n") + "\n").map_err(|e| e.to_string())?;
    let out = Command::new(bin).arg(&q).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    let v: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect();
    if !out.status.success() || v.len() != queries.len() { return Err(format!("runner: {:?}, {} of {} answers, {}", out.status, v.len(), queries.len(), String::from_utf8_lossy(&out.stderr))); }
    Ok(v)
}
