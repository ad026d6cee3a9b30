//! C15: exit status and file system effects of the make_pluralrules process under faults.
//! Everything happens in a scratch directory; a full device is a symbolic link to /dev/full in it.
use crate::gen::*;
use crate::genchecks::{gen_fault, generate, lang_codes};
use crate::libchecks::clip;
use crate::par::par;
use crate::refsem::*;
use crate::report::*;
use crate::rng::Rng;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// path -> contents of every file (and kind of everything else) below a directory.
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let e = e.unwrap();
            let t = e.file_type().unwrap();
            if t.is_dir() { m.insert(e.path(), b"<dir>".to_vec()); todo.push(e.path()); }
            else if t.is_symlink() { m.insert(e.path(), format!("<link {:?}>", std::fs::read_link(e.path()).unwrap()).into_bytes()); }
            else { m.insert(e.path(), std::fs::read(e.path()).unwrap()); }
        }
    }
    m
}
fn read_some(p: &Path, max: u64) -> Option<Vec<u8>> {
    let f = std::fs::File::open(p).ok()?;
    let mut v = Vec::new();
    f.take(max).read_to_end(&mut v).ok()?;
    Some(v)
}
/// rustfmt of a text, in a directory of its own.
fn formatted(dir: &Path, text: &str) -> Option<String> {
    let d = dir.join("fmt");
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("want.rs");
    std::fs::write(&p, text).unwrap();
    let ok = Command::new("rustfmt").arg(&p).stdin(Stdio::null()).output().ok()?.status.success();
    let t = std::fs::read_to_string(&p).ok();
    std::fs::remove_dir_all(&d).unwrap();
    if ok { t } else { None }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Existing { None, Longer, Shorter, Same, Empty, Alike }
#[derive(Clone, Debug, PartialEq)]
enum Case {
    /// valid inputs: argument style, existing output, ugly, where the output is
    Good { style: u64, existing: Existing, ugly: bool, place: u64 },
    /// the inputs are not usable
    Bad { kind: u64, existing: Existing, ugly: bool },
    /// the output cannot be written
    NoWrite { kind: u64, ugly: bool },
    /// the formatter is absent, fails or is killed
    Fmt { kind: u64, ugly: bool, existing: Existing },
    /// several runs at the same time in one directory
    Together { ugly: bool },
    /// runs one after the other, failing ones between good ones
    Again,
}
struct Res { evals: u64, bad: Vec<(String, serde_json::Value)>, name: String, inconclusive: Option<String> }

fn good_inputs(r: &mut Rng, n: usize) -> Vec<String> { sized_inputs(r, n, false) }
/// big: so many locales that the code exceeds any pipe or buffer.
fn sized_inputs(r: &mut Rng, n: usize, big: bool) -> Vec<String> {
    let codes = lang_codes(if big { 700 } else { 60 });
    let mk = |r: &mut Rng| -> Vec<LocRules> {
        let k = if big { 500 } else { 0 } + 1 + r.below(8) as usize;
        let off = r.below(40) as usize;
        codes[off..off + k].iter().map(|c| LocRules { name: c.clone(), rules: vec![((r.below(5)) as u8, vec![vec![crate::genchecks::gen_rel(r)]])] }).collect()
    };
    let ver = (1 + r.below(90)).to_string();
    let (c, o) = (mk(r), mk(r));
    match n {
        1 => match r.below(3) { 0 => vec![file_json(r, &PLAIN, &ver, Some(&c), None)], 1 => vec![file_json(r, &PLAIN, &ver, None, Some(&o))], _ => vec![file_json(r, &PLAIN, &ver, Some(&c), Some(&o))] },
        _ => { let mut v = vec![file_json(r, &PLAIN, &ver, Some(&c), None), file_json(r, &PLAIN, &ver, None, Some(&o))]; if r.chance(1, 2) { v.reverse(); } v }
    }
}
fn put_inputs(dir: &Path, texts: &[String], odd: bool) -> Vec<PathBuf> {
    texts.iter().enumerate().map(|(k, t)| { let p = dir.join(if odd { format!("in put ü {}.json", k) } else { format!("in{}.json", k) }); std::fs::write(&p, t).unwrap(); p }).collect()
}
fn put_existing(out: &Path, e: Existing, want: &str) {
    match e {
        Existing::None => {}
        Existing::Longer => std::fs::write(out, format!("{}\n// old text that must go\n{}", "// old\n".repeat(4000), want)).unwrap(),
        Existing::Shorter => std::fs::write(out, "// old\n").unwrap(),
        Existing::Same => std::fs::write(out, want).unwrap(),
        Existing::Empty => std::fs::write(out, "").unwrap(),
        // as long as the new text, with the same beginning and end
        Existing::Alike => { let mut b = want.as_bytes().to_vec(); let m = b.len() / 2; for x in &mut b[m..m + 8] { *x = b' '; } std::fs::write(out, b).unwrap() }
    }
}
fn one(env: &Env, dir: &Path, n: usize, case: &Case) -> Res {
    let mut res = Res { evals: 0, bad: vec![], name: format!("{:?}", case).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(), inconclusive: None };
    if HUNG.load(std::sync::atomic::Ordering::Relaxed) { return res; }
    let d = dir.join(format!("case{}", n));
    std::fs::create_dir_all(d.join("sub")).unwrap();
    std::fs::write(d.join("bystander.rs"), "fn   bystander( ) { }\n").unwrap();
    std::fs::write(d.join("sub/bystander.json"), "{ }").unwrap();
    let mut r = Rng::new(env.seed, &format!("C15/{}", n));
    let witness = |what: &str, stderr: &str| json!(["tool", format!("{:?}", case), what, clip(stderr)]);
    let tool = |args: &[&std::ffi::OsStr]| { let mut c = Command::new(&env.cli); c.args(args).current_dir(&d); c };
    let os = |s: &str| std::ffi::OsString::from(s);
    // everything but the output must be as before
    let others_same = |before: &BTreeMap<PathBuf, Vec<u8>>, out: Option<&Path>| -> Option<String> {
        let after = snapshot(&d);
        for (p, c) in before { if Some(p.as_path()) == out { continue; } match after.get(p) { None => return Some(format!("{:?} is gone", p.file_name().unwrap())), Some(x) if x != c => return Some(format!("{:?} is changed", p.file_name().unwrap())), _ => {} } }
        for p in after.keys() { if Some(p.as_path()) != out && !before.contains_key(p) { return Some(format!("{:?} has appeared", p.file_name().unwrap())); } }
        None
    };
    match case {
        Case::Good { style, existing, ugly, place } => {
            let k = if style % 3 == 2 { 1 } else { 2 };
            let mut texts = sized_inputs(&mut r, k, *style >= 7);
            // Inputs bigger than any read buffer.
            if *style == 8 { for x in &mut texts { let at = x.find(':').unwrap() + 1; x.insert_str(at, &" \n".repeat(150_000)); } }
            let ins = put_inputs(&d, &texts, style % 2 == 1);
            let want_raw = match generate(&texts) { Ok(t) => t, Err(e) => { res.bad.push((format!("valid input is refused: {}", clip(&e)), json!(["files", texts]))); return res; } };
            let want = if *ugly { want_raw.clone() } else { match formatted(&d, &want_raw) { Some(t) => t, None => { res.inconclusive = Some("rustfmt does not work here".into()); return res; } } };
            let out = match place { 0 => d.join("out.rs"), 1 => d.join("sub/out ü.rs"), 2 => d.join("plain"), _ => d.join("sub/o.rs") };
            put_existing(&out, *existing, if (style + *ugly as u64) % 2 == 0 { &want_raw } else { &want });
            let before = snapshot(&d);
            let mut args: Vec<std::ffi::OsString> = Vec::new();
            let rel = |p: &Path| p.strip_prefix(&d).unwrap().as_os_str().to_os_string();
            let outarg = if *place == 3 { rel(&out) } else { out.as_os_str().to_os_string() };
            match style % 5 {
                0 => { args.push(os("-i")); for i in &ins { args.push(i.as_os_str().into()); } args.push(os("-o")); args.push(outarg); if *ugly { args.push(os("-u")); } }
                1 => { for i in &ins { args.push(os("-i")); args.push(rel(i)); } args.push(os("-o")); args.push(outarg); if *ugly { args.push(os("--ugly")); } }
                2 => { args.push(os("-o")); args.push(outarg); args.push(os("-i")); for i in &ins { args.push(rel(i)); } if *ugly { args.push(os("-u")); } }
                3 => { if *ugly { args.push(os("-u")); } args.push(os("--output")); args.push(outarg); for i in &ins { args.push(os("--input")); args.push(i.as_os_str().into()); } }
                _ => { for i in &ins { let mut a = os("--input="); a.push(i); args.push(a); } let mut a = os("--output="); a.push(&outarg); args.push(a); if *ugly { args.push(os("-u")); } }
            }
            let a: Vec<&std::ffi::OsStr> = args.iter().map(|x| x.as_os_str()).collect();
            let ran = run(tool(&a)).expect("the tool starts");
            res.evals += 1;
            if !ran.ok() { res.bad.push((format!("{:?}: valid input, exit {:?}: {}", case, ran.code, clip(&ran.stderr)), witness("exit", &ran.stderr))); }
            else {
                let got = std::fs::read(&out).ok().map(|b| String::from_utf8_lossy(&b).to_string());
                if got.as_deref() != Some(want.as_str()) {
                    let p = got.as_ref().map(|g| g.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len())));
                    res.bad.push((format!("{:?}: exit 0, but the output is not the {} code of the inputs ({} bytes, expected {}, first difference {:?})", case, if *ugly { "verbatim" } else { "formatted" }, got.as_ref().map(|g| g.len()).unwrap_or(0), want.len(), p), witness("content", "")));
                }
            }
            if let Some(e) = others_same(&before, Some(&out)) { res.bad.push((format!("{:?}: {}", case, e), witness("others", ""))); }
        }
        Case::Bad { kind, existing, ugly } => {
            let mut ins: Vec<PathBuf> = put_inputs(&d, &good_inputs(&mut r, 2), false);
            match kind {
                0..=2 => { let at = *kind as usize; ins.insert(at, d.join("missing.json")); }
                3 | 4 => { let at = (*kind - 3) as usize; ins.insert(at * 2, d.join("sub")); }
                5 | 6 => { let at = (*kind - 5) as usize; let t = std::fs::read(&ins[at]).unwrap(); let mut t2 = t.clone(); let q = t2.len() / 2; t2[q] = 0xff; std::fs::write(&ins[at], t2).unwrap(); }
                7 => { std::fs::write(&ins[1], "").unwrap(); }
                8 => { let t = std::fs::read_to_string(&ins[1]).unwrap(); std::fs::write(&ins[1], &t[..t.len() - 3]).unwrap(); }
                9 => { ins.push(ins[0].clone()); }
                10 => { let t = std::os::unix::fs::symlink(d.join("nowhere"), d.join("dangling.json")); t.unwrap(); ins.insert(1, d.join("dangling.json")); }
                11 => { ins.clear(); }
                _ => {
                    let f = loop { let (f, _) = gen_fault(&mut r); if !f.files.is_empty() { break f; } };
                    ins = put_inputs(&d, &f.files, false);
                }
            }
            let out = d.join("out.rs");
            put_existing(&out, *existing, "pub fn old() {}\n");
            let before = snapshot(&d);
            let mut args: Vec<std::ffi::OsString> = Vec::new();
            if !ins.is_empty() { args.push(os("-i")); for i in &ins { args.push(i.as_os_str().into()); } }
            args.push(os("-o"));
            args.push(out.as_os_str().into());
            if *ugly { args.push(os("-u")); }
            let a: Vec<&std::ffi::OsStr> = args.iter().map(|x| x.as_os_str()).collect();
            let ran = run(tool(&a)).expect("the tool starts");
            res.evals += 1;
            if ran.endless { res.bad.push((format!("{:?}: the run does not end (stopped after {} s)", case, ENDLESS), witness("endless", &ran.stderr))); }
            if ran.ok() { res.bad.push((format!("{:?}: unusable input, but exit 0", case), witness("exit", &ran.stderr))); }
            if let Some(e) = others_same(&before, None) { res.bad.push((format!("{:?}: failed run, but {}", case, e), witness("files", &ran.stderr))); }
        }
        Case::NoWrite { kind, ugly } => {
            let texts = good_inputs(&mut r, 2);
            let ins = put_inputs(&d, &texts, false);
            let want_raw = generate(&texts).unwrap_or_default();
            let want = if *ugly { want_raw.clone() } else { formatted(&d, &want_raw).unwrap_or_default() };
            let out = match kind {
                0 => d.join("nosuchdir/out.rs"),
                1 => d.join("sub"),
                2 => d.join("bystander.rs/out.rs"),
                3 => { let p = d.join("full.rs"); std::os::unix::fs::symlink("/dev/full", &p).unwrap(); p }
                _ => d.join("limited.rs"),
            };
            let before = snapshot(&d);
            let mut c = if *kind >= 4 {
                // no more than 1 or 0 blocks may be written
                let mut c = Command::new("bash");
                c.arg("-c").arg(format!("ulimit -f {}; {}exec \"$@\"", *kind - 4, if *kind % 2 == 0 { "trap '' XFSZ; " } else { "" })).arg("limited").arg(&env.cli).current_dir(&d);
                c
            } else { let mut c = Command::new(&env.cli); c.current_dir(&d); c };
            c.arg("-i");
            for i in &ins { c.arg(i); }
            c.arg("-o").arg(&out);
            if *ugly { c.arg("-u"); }
            let ran = run(c).expect("the tool starts");
            res.evals += 1;
            if ran.endless { res.bad.push((format!("{:?}: the run does not end (stopped after {} s)", case, ENDLESS), witness("endless", &ran.stderr))); }
            if ran.ok() {
                let got = read_some(&out, want.len() as u64 + 10);
                if got.as_deref() != Some(want.as_bytes()) { res.bad.push((format!("{:?}: exit 0, but the output could not be written", case), witness("exit", &ran.stderr))); }
            }
            if let Some(e) = others_same(&before, Some(&out)) { res.bad.push((format!("{:?}: {}", case, e), witness("others", &ran.stderr))); }
        }
        Case::Fmt { kind, ugly, existing } => {
            let texts = good_inputs(&mut r, 2);
            let ins = put_inputs(&d, &texts, false);
            let want_raw = generate(&texts).unwrap_or_default();
            let bin = d.join("bin");
            std::fs::create_dir_all(&bin).unwrap();
            let script = match kind { 0 => None, 1 => Some("exit 1"), 2 => Some("kill -9 $$"), 3 => Some("echo broken >&2; exit 101"),
                // talkative ones: more than a pipe holds
                5 => Some("/usr/bin/head -c 300000 /dev/zero >&2; exit 1"),
                6 => Some("/usr/bin/head -c 300000 /dev/zero; exit 1"),
                7 => Some("/usr/bin/head -c 300000 /dev/zero >&2; REAL \"$@\""),
                _ => Some("kill -TERM $$; sleep 1") };
            if let Some(s) = script {
                let s = s.replace("REAL", &format!("PATH='{}'; export PATH; exec rustfmt", std::env::var("PATH").unwrap_or_default()));
                let p = bin.join("rustfmt");
                std::fs::write(&p, format!("#!/bin/sh\n{}\n", s)).unwrap();
                std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
            }
            let out = d.join("out.rs");
            put_existing(&out, *existing, "pub fn old() {}\n");
            let before = snapshot(&d);
            let mut c = Command::new(&env.cli);
            c.current_dir(&d).env("PATH", &bin).arg("-i");
            for i in &ins { c.arg(i); }
            c.arg("-o").arg(&out);
            if *ugly { c.arg("-u"); }
            let ran = run(c).expect("the tool starts");
            res.evals += 1;
            if ran.endless { res.bad.push((format!("{:?}: the run does not end (stopped after {} s)", case, ENDLESS), witness("endless", &ran.stderr))); }
            else if *kind == 7 && !*ugly && !ran.ok() { res.bad.push((format!("{:?}: the formatter worked (and wrote much to its standard error), but exit {:?}", case, ran.code), witness("exit", &ran.stderr))); }
            else if *ugly {
                if !ran.ok() { res.bad.push((format!("{:?}: verbatim output needs no formatter, but exit {:?}: {}", case, ran.code, clip(&ran.stderr)), witness("exit", &ran.stderr))); }
                else if std::fs::read_to_string(&out).ok().as_deref() != Some(want_raw.as_str()) { res.bad.push((format!("{:?}: the output is not the verbatim code", case), witness("content", ""))); }
            } else if ran.ok() {
                // success is only right if the file is formatted all the same
                let want = formatted(&d, &want_raw);
                let got = std::fs::read_to_string(&out).ok();
                if got.is_none() || got != want { res.bad.push((format!("{:?}: exit 0, but the output is not formatted code", case), witness("exit", &ran.stderr))); }
            }
            if let Some(e) = others_same(&before, Some(&out)) { res.bad.push((format!("{:?}: {}", case, e), witness("others", &ran.stderr))); }
        }
        Case::Together { ugly } => {
            let sets: Vec<Vec<String>> = (0..6).map(|_| good_inputs(&mut r, 2)).collect();
            let mut kids = Vec::new();
            let mut outs = Vec::new();
            let mut wants = Vec::new();
            for (k, s) in sets.iter().enumerate() {
                let sd = d.join(format!("g{}", k));
                std::fs::create_dir_all(&sd).unwrap();
                let ins = put_inputs(&sd, s, false);
                let raw = match generate(s) { Ok(t) => t, Err(_) => return res };
                wants.push(if *ugly { raw } else { match formatted(&sd, &raw) { Some(t) => t, None => { res.inconclusive = Some("rustfmt does not work here".into()); return res; } } });
                let out = d.join(format!("out{}.rs", k));
                outs.push((ins, out));
            }
            let before = snapshot(&d);
            for (ins, out) in &outs {
                let mut c = Command::new(&env.cli);
                c.current_dir(&d).arg("-i");
                for i in ins { c.arg(i); }
                c.arg("-o").arg(out);
                if *ugly { c.arg("-u"); }
                kids.push(std::thread::spawn(move || run(c).expect("the tool starts")));
            }
            for (k, c) in kids.into_iter().enumerate() {
                let st = c.join().unwrap();
                res.evals += 1;
                if st.endless { res.bad.push((format!("{:?}: run {} of several at the same time does not end", case, k), witness("endless", ""))); }
                else if !st.ok() { res.bad.push((format!("{:?}: run {} of several at the same time fails", case, k), witness("exit", ""))); }
                else if std::fs::read_to_string(&outs[k].1).ok().as_deref() != Some(wants[k].as_str()) { res.bad.push((format!("{:?}: run {} of several at the same time writes something else", case, k), witness("content", ""))); }
            }
            let after = snapshot(&d);
            for p in after.keys() { if !before.contains_key(p) && !outs.iter().any(|o| o.1 == *p) { res.bad.push((format!("{:?}: {:?} has appeared", case, p.file_name().unwrap()), witness("others", ""))); } }
        }
        Case::Again => {
            let out = d.join("out.rs");
            let mut last: Option<String> = None;
            for step in 0..6 {
                let ugly = r.chance(1, 2);
                if r.chance(1, 3) && step > 0 {
                    // a failing run in between
                    let mut c = Command::new(&env.cli);
                    c.current_dir(&d).arg("-i").arg(d.join("missing.json")).arg("-o").arg(&out);
                    let ran = run(c).unwrap();
                    res.evals += 1;
                    if ran.ok() { res.bad.push((format!("{:?}: missing input, but exit 0", case), witness("exit", ""))); }
                } else {
                    let texts = good_inputs(&mut r, 2);
                    let ins = put_inputs(&d, &texts, false);
                    let raw = generate(&texts).unwrap_or_default();
                    last = Some(if ugly { raw } else { match formatted(&d, &raw) { Some(t) => t, None => { res.inconclusive = Some("rustfmt does not work here".into()); return res; } } });
                    let refs: Vec<&Path> = ins.iter().map(|p| p.as_path()).collect();
                    let ran = cli(env, &refs, &out, ugly);
                    res.evals += 1;
                    if !ran.ok() { res.bad.push((format!("{:?}: step {} fails: {}", case, step, clip(&ran.stderr)), witness("exit", &ran.stderr))); break; }
                }
                if std::fs::read_to_string(&out).ok() != last { res.bad.push((format!("{:?}: after step {} the output is not that of the last successful run", case, step), witness("content", ""))); break; }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    res
}
pub fn c15(env: &Env) -> ! {
    let mut rep = Report::new(env, "C15");
    let dir = scratch(env, "C15");
    let mut cases = Vec::new();
    let ex = [Existing::None, Existing::Longer, Existing::Shorter, Existing::Same, Existing::Empty, Existing::Alike];
    for round in 0..env.scale(1, 12) {
        for style in 0..10 { for (k, e) in ex.iter().enumerate() { for ugly in [false, true] { cases.push(Case::Good { style, existing: *e, ugly, place: (style + k as u64 + round) % 4 }); } } }
        for kind in 0..20 { for e in [Existing::None, Existing::Longer, Existing::Empty] { for ugly in [false, true] { cases.push(Case::Bad { kind, existing: e, ugly }); } } }
        for kind in 0..6 { for ugly in [false, true] { cases.push(Case::NoWrite { kind, ugly }); } }
        for kind in 0..8 { for ugly in [false, true] { for e in [Existing::None, Existing::Longer] { cases.push(Case::Fmt { kind, ugly, existing: e }); } } }
        for ugly in [false, true] { for _ in 0..4 { cases.push(Case::Together { ugly }); } }
        for _ in 0..12 { cases.push(Case::Again); }
    }
    let outs = par(&cases, |n, c| one(env, &dir, n, c));
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for r in outs {
        rep.evaluations += r.evals;
        *kinds.entry(r.name).or_insert(0) += r.evals;
        for (s, c) in r.bad { rep.violate(s, c); }
        if let Some(i) = r.inconclusive { if rep.inconclusive.len() < 3 { rep.inconclusive.push(i); } }
    }
    rep.distinct = cases.len() as u64;
    for c in cases.iter().step_by(cases.len() / 10) { rep.sample(json!(format!("{:?}", c))); }
    rep.put("runs_by_kind", json!(kinds));
    rep.rule = "one run of the real process per evaluation: argument styles, existing outputs, flags, unusable inputs, unwritable outputs (missing directory, directory, full device, file size limit), absent, failing, killed and talkative formatter, runs at the same time and in sequence; judged by exit status, output against generate_rs (and rustfmt), and a snapshot of all other files; distinct counts scenarios (inputs are generated anew for each)".into();
    let _ = std::fs::remove_dir_all(&dir);
    rep.finish(env)
}
