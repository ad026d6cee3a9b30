//! Histories and schedules. The oracle is the result of each call made alone in a pristine process
//! (a child forked before this process has called anything of the code under test); every other
//! history and schedule has to reproduce exactly those results.
//!
//!   stress iso  <seed> <pool>                                  isolated results, one line each
//!   stress run  <seed> <pool> <histories> <long> <rounds> <scratch>    everything
//!   stress threads <seed> <pool> <rounds> [file]               threads only (sanitizers, Miri)
//!   stress emit <seed> <pool>                                  a pool for `threads`
use san::rng::Rng;
use san::*;
use intl_pluralrules::PluralRules;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

fn shared<T: Send + Sync + Clone>() {}

#[cfg(not(miri))]
mod forked {
    use super::*;
    use std::os::fd::FromRawFd;
    extern "C" {
        fn fork() -> i32;
        fn pipe(fds: *mut i32) -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
        fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
        fn alarm(s: u32) -> u32;
    }
    /// Runs `f` in a child process; what it writes, and how it ended ("" or "signal N").
    pub fn child(secs: u32, f: impl FnOnce(&mut dyn Write)) -> (String, String) {
        std::io::stdout().flush().unwrap();
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            let pid = fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                setrlimit(0, &[120, 120]); // CPU seconds: a call that stops terminating
                alarm(secs); // a call that waits for ever
                let mut w = std::io::BufWriter::new(std::fs::File::from_raw_fd(fds[1]));
                f(&mut w);
                let _ = w.flush();
                _exit(0);
            }
            drop(std::fs::File::from_raw_fd(fds[1]));
            let mut s = String::new();
            let mut bytes = Vec::new();
            std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut bytes).unwrap();
            s.push_str(&String::from_utf8_lossy(&bytes));
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let sig = st & 0x7f;
            (s, if sig != 0 { format!("signal {}", sig) } else if st != 0 { format!("exit {}", st >> 8) } else { String::new() })
        }
    }
}

fn confusable(r: &mut Rng, all: &[(char, String)], c: &Call) -> Call {
    // A call that a careless cache could take for `c`.
    match c {
        Call::Select(t, l, n) => match r.below(5) {
            0 => Call::Select(if *t == 'C' { 'O' } else { 'C' }, l.clone(), n.clone()),
            1 if l == "pt" => Call::Select(*t, "pt-PT".into(), n.clone()),
            1 if l == "pt-PT" => Call::Select(*t, "pt".into(), n.clone()),
            1 => { let same: Vec<&(char, String)> = all.iter().filter(|x| x.0 == *t).collect(); Call::Select(*t, r.pick(&same).1.clone(), n.clone()) }
            2 => Call::Select(*t, l.clone(), like(r, n)),
            3 => Call::Ops(match n { Num::Po(..) | Num::Nested(..) | Num::Fails | Num::Panics => Num::S("1".into()), n => n.clone() }),
            _ => Call::Select(*t, l.clone(), num(r)),
        },
        Call::New(t, l) => match r.below(4) { 3 => Call::NewBy(*t, l.clone(), r.below(3) as u8), 0 => Call::New(if *t == 'C' { 'O' } else { 'C' }, l.clone()), 1 => Call::New(*t, format!("{}-ZZ", l)), _ => Call::New(*t, locale_name(r, all)) },
        Call::NewBy(t, l, how) => match r.below(3) { 0 => Call::New(*t, l.clone()), 1 => Call::NewBy(*t, locale_name(r, all), *how), _ => Call::NewBy(*t, l.clone(), (*how + 1) % 3) },
        Call::RuleBy(s, how) => match r.below(3) { 0 => Call::Rule(s.clone()), 1 => Call::RuleBy(tweak(r, s), *how), _ => Call::RuleBy(s.clone(), (*how + 1) % 3) },
        Call::CondBy(s, how) => match r.below(3) { 0 => Call::Cond(s.clone()), 1 => Call::CondBy(tweak(r, s), *how), _ => Call::CondBy(s.clone(), (*how + 1) % 3) },
        Call::Ops(n) => Call::Ops(like(r, n)),
        Call::Rule(s) => if r.chance(1, 4) { Call::Cond(s.clone()) } else { Call::Rule(tweak(r, s)) },
        Call::Cond(s) => if r.chance(1, 4) { Call::Rule(s.clone()) } else { Call::Cond(tweak(r, s)) },
        Call::Gen(f) => { let mut f = f.clone(); match r.below(8) {
            0 => f.reverse(), 1 => { f.pop(); } 2 => f = gen_files(r, all),
            // Same length, nearly the same text.
            k => if !f.is_empty() {
                let j = r.below(f.len() as u64) as usize;
                let t = &f[j];
                if k == 3 { f[j] = t.replacen("-one\"", "-two\"", 1); }
                else {
                    let at: Vec<usize> = t.bytes().enumerate().filter(|(k, b)| b.is_ascii_digit() && *k > 100).map(|x| x.0).collect();
                    if !at.is_empty() { let a = *r.pick(&at); f[j] = format!("{}{}{}", &t[..a], r.below(10), &t[a + 1..]); }
                }
            }
        }; Call::Gen(f) }
        c => c.clone(),
    }
}
fn tweak(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if v.is_empty() { return "n = 1".into(); }
    let k = r.below(v.len() as u64) as usize;
    match r.below(3) {
        0 => { v[k] = if v[k].is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else { *r.pick(&['n', 'i', 'v', ' ', '1']) } }
        1 => v.truncate(k),
        _ => v.push(*r.pick(&['1', ' ', 'x', '0'])),
    }
    v.into_iter().collect()
}
fn like(r: &mut Rng, n: &Num) -> Num {
    match n {
        Num::S(s) | Num::O(s) => { let t = match r.below(5) { 0 => format!("{}0", s), 1 => format!("-{}", s), 2 => format!("{}.0", s), 3 => s.clone(), _ => tweak(r, s) }; if r.chance(1, 2) { Num::S(t) } else { Num::O(t) } }
        Num::U64(x) => match r.below(4) { 0 => Num::U64(x ^ 1), 1 => Num::U64(x ^ (1 << 40)), 2 => Num::S(x.to_string()), _ => Num::F64((*x as f64).to_bits()) },
        Num::U32(x) => match r.below(3) { 0 => Num::U8(*x as u8), 1 => Num::U64(*x as u64 + (1 << 32)), _ => Num::S(format!("{}.0", x)) },
        Num::I64(x) => match r.below(3) { 0 => Num::I64(x.wrapping_neg()), 1 => Num::I32(*x as i32), _ => Num::U64(*x as u64) },
        Num::F64(x) => match r.below(3) { 0 => Num::F64(x ^ (1 << 63)), 1 => Num::F64(x ^ 1), _ => Num::F32((f64::from_bits(*x) as f32).to_bits()) },
        Num::Po(a, b, c, d, e, f) => match r.below(4) { 0 => Num::Po(*a, *b, 0, 0, 0, 0), 1 => Num::Po(*a, b ^ 1, *c, *d, *e, *f), 2 => Num::Po(*a, *b, c + 1, *d, *e, *f), _ => Num::Po(*a, *b, *c, *d, *e, *f + 1) },
        _ => num(r),
    }
}
/// The pool comes in families of calls that resemble each other.
fn pool(seed: u64, n: usize, gen: bool) -> Vec<Vec<Call>> {
    let all = locales();
    let mut r = Rng::new(seed, "pool");
    let mut v = Vec::new();
    let mut total = 0;
    while total < n {
        let c = call(&mut r, &all, gen);
        let mut fam = vec![c];
        for _ in 0..1 + r.below(5) { let base = r.pick(&fam).clone(); let x = confusable(&mut r, &all, &base); if !fam.contains(&x) && (gen || !matches!(x, Call::Gen(_))) { fam.push(x); } }
        total += fam.len();
        v.push(fam);
    }
    v
}
struct Log { mismatches: Mutex<Vec<String>>, count: AtomicU64, kinds: Mutex<BTreeMap<&'static str, u64>> }
impl Log {
    fn bad(&self, phase: &str, c: &str, want: &str, got: &str, ctx: &str) {
        let mut m = self.mismatches.lock().unwrap();
        if m.len() < 20 { m.push(format!("{}: {} alone gives {}, here {} ({})", phase, clip(c), clip(want), clip(got), clip(ctx)).replace('\n', "\\n")); }
    }
}
fn clip(s: &str) -> String { if s.chars().count() > 400 { s.chars().take(400).collect::<String>() + "..." } else { s.into() } }

fn main() {
    quiet_hook();
    shared::<PluralRules>();
    shared::<Arc<PluralRules>>();
    let a: Vec<String> = std::env::args().collect();
    let p = |k: usize| -> u64 { a.get(k).map(|s| s.parse().unwrap()).unwrap_or(0) };
    match a[1].as_str() {
        #[cfg(not(miri))]
        "iso" => 'all: for fam in pool(p(2), p(3) as usize, true) { for c in fam { let r = isolated(&c); println!("{} => {}", show_call(&c), r.replace('\n', "\\n")); if r.ends_with("signal 14") { break 'all; } } },
        #[cfg(not(miri))]
        "run" => run(p(2), p(3) as usize, p(4), p(5), p(6), &a[7]),
        // Few, short calls, made natively for Miri: families separated by Version.
        "emit" => {
            let mut v = vec![];
            for mut f in pool(p(2), p(3) as usize, false) {
                f.retain(|c| match c { Call::Rule(s) | Call::Cond(s) | Call::RuleBy(s, _) | Call::CondBy(s, _) => s.len() < 24, Call::Locales(_) | Call::Version => false, _ => true });
                if f.is_empty() { continue; }
                v.append(&mut f);
                v.push(Call::Version);
            }
            std::io::stdout().write_all(&wire::write(&v)).unwrap();
        }
        "threads" => {
            let fams = match a.get(5) {
                None => pool(p(2), p(3) as usize, false),
                Some(file) => {
                    let mut rd = wire::Reader::new(std::fs::read(file).unwrap());
                    let mut v = vec![vec![]];
                    while let Some(c) = rd.next() { if c == Call::Version { v.push(vec![]) } else { v.last_mut().unwrap().push(c) } }
                    v.pop();
                    v
                }
            };
            let log = Log { mismatches: Mutex::new(vec![]), count: AtomicU64::new(0), kinds: Mutex::new(BTreeMap::new()) };
            // No fork here: the first evaluation in this thread is the reference.
            let want: Vec<Vec<String>> = fams.iter().map(|f| f.iter().map(eval).collect()).collect();
            let d = threads(p(2), &fams, &want, p(4), &log, if cfg!(miri) { 3 } else { 6 }, if cfg!(miri) { 6 } else { 60 });
            finish(&log, &[("interleavings", d), ("calls_in_pool", fams.iter().map(|f| f.len() as u64).sum())]);
        }
        m => panic!("{}", m),
    }
}
fn finish(log: &Log, extra: &[(&str, u64)]) {
    for m in log.mismatches.lock().unwrap().iter() { println!("MISMATCH {}", m); }
    for (k, n) in log.kinds.lock().unwrap().iter() { println!("STAT kind_{} {}", k, n); }
    println!("STAT events {}", log.count.load(Ordering::Relaxed));
    for (k, n) in extra { println!("STAT {} {}", k, n); }
    println!("END");
}
#[cfg(not(miri))]
fn isolated(c: &Call) -> String {
    let (s, end) = forked::child(60, |w| { let _ = w.write_all(eval(c).as_bytes()); });
    s + &end
}
#[cfg(not(miri))]
fn run(seed: u64, size: usize, histories: u64, long: u64, rounds: u64, scratch: &str) {
    let fams = pool(seed, size, true);
    let log = Log { mismatches: Mutex::new(vec![]), count: AtomicU64::new(0), kinds: Mutex::new(BTreeMap::new()) };
    // A call that waits for another one that it made itself, or ends the process, is reported at once.
    let mut want: Vec<Vec<String>> = Vec::new();
    for f in &fams {
        let mut v = Vec::new();
        for c in f {
            let (s, end) = forked::child(60, |w| { let _ = w.write_all(eval(c).as_bytes()); });
            if !end.is_empty() {
                log.bad("alone", &show_call(c), "a result", &end, "in a pristine process");
                finish(&log, &[]);
                return;
            }
            v.push(s);
        }
        want.push(v);
    }
    for f in &fams { for c in f { *log.kinds.lock().unwrap().entry(kind(c)).or_insert(0) += 1; } }
    let mut r = Rng::new(seed, "histories");
    let mut distinct: HashSet<Vec<(usize, usize)>> = HashSet::new();
    let mut outcomes: HashSet<&str> = HashSet::new();
    for f in &want { for w in f { outcomes.insert(w); } }
    // 1. Short histories over few similar calls, each in a pristine process.
    let heavy = |c: &Call| matches!(c, Call::Gen(_));
    for h in 0..histories {
        let mut hot: Vec<(usize, usize)> = Vec::new();
        let nf = 1 + r.below(3);
        for _ in 0..nf { let f = r.below(fams.len() as u64) as usize; for k in 0..fams[f].len() { hot.push((f, k)); } }
        r.shuffle(&mut hot);
        hot.truncate(2 + r.below(6) as usize);
        let len = if hot.iter().any(|(f, k)| heavy(&fams[*f][*k])) { 12 } else { 12 + r.below(40) };
        let mut seq: Vec<(usize, usize)> = (0..len).map(|_| *r.pick(&hot)).collect();
        if h % 3 == 0 && hot.len() >= 2 { let (x, y) = (hot[0], hot[1]); seq = vec![x, y, x, x, y, y, x, y]; }
        let (out, end) = forked::child(60, |w| {
            // Instances live through the whole history next to the fresh ones of eval.
            let mut live: BTreeMap<(char, String), PluralRules> = BTreeMap::new();
            for (pos, (f, k)) in seq.iter().enumerate() {
                let c = &fams[*f][*k];
                let got = match c {
                    Call::Select(t, l, n) if pos % 2 == 1 => {
                        let key = (*t, l.clone());
                        if !live.contains_key(&key) { if let Ok(pr) = create(*t, l) { live.insert(key.clone(), pr); } }
                        match live.get(&key) { Some(pr) => select_on(pr, n), None => eval(c) }
                    }
                    _ => eval(c),
                };
                if got != want[*f][*k] { let _ = write!(w, "{}\u{1}{}\u{2}", pos, got); return; }
            }
        });
        log.count.fetch_add(seq.len() as u64, Ordering::Relaxed);
        distinct.insert(seq.clone());
        if !out.is_empty() || !end.is_empty() {
            let pos: usize = out.split('\u{1}').next().unwrap().parse().unwrap_or(seq.len() - 1);
            let got = out.split('\u{1}').nth(1).unwrap_or("").trim_end_matches('\u{2}').to_string() + &end;
            let (f, k) = seq[pos];
            let before: Vec<String> = seq[..pos].iter().rev().take(4).map(|(f, k)| show_call(&fams[*f][*k])).collect();
            log.bad("history", &show_call(&fams[f][k]), &want[f][k], &got, &format!("after {} calls, the last ones {}", pos, before.join("; before that ")));
        }
    }
    // 2. One long history in a child: repetitions beyond 2^16 and the pool in shuffled order.
    let flat: Vec<(usize, usize)> = fams.iter().enumerate().flat_map(|(f, v)| (0..v.len()).map(move |k| (f, k))).collect();
    let cheap: Vec<(usize, usize)> = flat.iter().copied().filter(|(f, k)| matches!(fams[*f][*k], Call::Select(..) | Call::Ops(_) | Call::New(..))).collect();
    let (out, end) = forked::child(400, |w| {
        let mut r = Rng::new(seed, "long");
        let mut n = 0u64;
        let mut order = flat.clone();
        let check = |f: usize, k: usize, got: String, n: u64, w: &mut dyn Write| -> bool {
            if got == want[f][k] { return true; }
            let _ = writeln!(w, "BAD\u{1}{}\u{1}{}\u{1}{}\u{1}{}", f, k, n, got.replace('\n', "\\n"));
            false
        };
        for pass in 0..3 {
            r.shuffle(&mut order);
            for (f, k) in &order { n += 1; if !check(*f, *k, eval(&fams[*f][*k]), n, w) { return; } }
            // The same call very often, then others again.
            for _ in 0..3 {
                let (f, k) = *r.pick(&cheap);
                for _ in 0..long / 9 + pass { n += 1; if !check(f, k, eval(&fams[f][k]), n, w) { return; } }
            }
            // One instance used very often; many instances alive at the same time.
            let sels: Vec<&(usize, usize)> = cheap.iter().filter(|(f, k)| matches!(fams[*f][*k], Call::Select(..)) && !want[*f][*k].starts_with("error \"unknown") && want[*f][*k] != "not an identifier").collect();
            let mut keep: Vec<(usize, usize, PluralRules)> = Vec::new();
            for _ in 0..2000 { let (f, k) = **r.pick(&sels); if let Call::Select(t, l, _) = &fams[f][k] { if let Ok(pr) = create(*t, l) { keep.push((f, k, pr)); } } }
            for j in 0..long / 3 {
                let (f, k, pr) = &keep[if j % 3 == 0 { 0 } else { r.below(keep.len() as u64) as usize }];
                if let Call::Select(_, _, num) = &fams[*f][*k] { n += 1; let got = if j % 5 == 0 { select_on(&pr.clone(), num) } else { select_on(pr, num) }; if !check(*f, *k, got, n, w) { return; } }
            }
            drop(keep);
        }
        let _ = writeln!(w, "DONE {}", n);
    });
    let mut longest = 0;
    for l in out.lines() {
        if let Some(n) = l.strip_prefix("DONE ") { longest = n.parse().unwrap(); }
        if let Some(b) = l.strip_prefix("BAD\u{1}") {
            let v: Vec<&str> = b.split('\u{1}').collect();
            let (f, k): (usize, usize) = (v[0].parse().unwrap(), v[1].parse().unwrap());
            log.bad("long history", &show_call(&fams[f][k]), &want[f][k], v[3], &format!("call number {}", v[2]));
        }
    }
    if !end.is_empty() || (longest == 0 && !out.contains("BAD")) { log.bad("long history", "the process", "a normal end", &end, "while repeating calls"); }
    log.count.fetch_add(longest, Ordering::Relaxed);
    // 2b. Every function very often in a row, beyond 2^17 calls: counters that wrap, things that fill up.
    let often: Vec<Call> = vec![
        Call::Ops(Num::S("1.50".into())), Call::Ops(Num::O("-12.034".into())), Call::Ops(Num::S("7".into())), Call::Ops(Num::S("x".into())),
        Call::Ops(Num::F64(1.25f64.to_bits())), Call::Ops(Num::F32(0.5f32.to_bits())), Call::Ops(Num::I32(-7)), Call::Ops(Num::U64(1 << 40)), Call::Ops(Num::I64(i64::MIN)),
        Call::Select('C', "lv".into(), Num::S("1.21".into())), Call::Select('C', "pl".into(), Num::F64(1.5f64.to_bits())), Call::Select('O', "en".into(), Num::U8(22)), Call::Select('C', "en".into(), Num::S("".into())),
        Call::New('C', "ar".into()), Call::New('O', "tlh".into()),
        Call::Rule("n % 10 = 1 @decimal 1.0, 1.5~2.5, \u{2026}".into()), Call::Cond("i = 1 and v = 0 or n % 100 != 2..4".into()), Call::Rule("z = 1".into()),
    ];
    let reps = (long / 9).max(1000);
    for c in &often {
        let want = isolated(c);
        let (out, end) = forked::child(400, |w| {
            for n in 0..reps { let got = eval(c); if got != want { let _ = write!(w, "{} {}", n + 1, got); return; } }
            if let Call::Select(t, l, num) = c { if let Ok(pr) = create(*t, l) { for n in 0..reps { let got = select_on(&pr, num); if got != want { let _ = write!(w, "{} {}", n + 1, got); return; } } } }
        });
        log.count.fetch_add(reps, Ordering::Relaxed);
        if out.is_empty() && end.is_empty() { continue; }
        let (n, got) = out.split_once(' ').unwrap_or(("?", &out));
        log.bad("repetition", &show_call(c), &want, &format!("{}{}", got, end), &format!("in repetition {}", n));
    }
    // 3. The surroundings of the process are no argument.
    let (out, end) = forked::child(400, |w| {
        for (k, v) in [("LANG", "ar_EG.UTF-8"), ("LC_ALL", "pl_PL.UTF-8"), ("LANGUAGE", "cy"), ("LC_NUMERIC", "de_DE.UTF-8"), ("TZ", "Asia/Tokyo"), ("RUST_BACKTRACE", "1")] { std::env::set_var(k, v); }
        let _ = std::env::set_current_dir(scratch);
        for (f, fam) in fams.iter().enumerate() { for (k, c) in fam.iter().enumerate() { let got = eval(c); if got != want[f][k] { let _ = writeln!(w, "{}\u{1}{}\u{1}{}", f, k, got.replace('\n', "\\n")); return; } } }
    });
    for l in out.lines() { let v: Vec<&str> = l.split('\u{1}').collect(); let (f, k): (usize, usize) = (v[0].parse().unwrap(), v[1].parse().unwrap()); log.bad("environment", &show_call(&fams[f][k]), &want[f][k], v[2], "other LANG, LC_ALL, TZ and directory"); }
    if !end.is_empty() { log.bad("environment", "the process", "a normal end", &end, "other LANG, LC_ALL, TZ and directory"); }
    log.count.fetch_add(flat.len() as u64, Ordering::Relaxed);
    // 4. Threads, in this process, which is still pristine.
    let seen = threads(seed, &fams, &want, rounds, &log, 12, 60);
    finish(&log, &[("calls_in_pool", flat.len() as u64), ("distinct_results", outcomes.len() as u64), ("histories", histories), ("distinct_histories", distinct.len() as u64), ("long_history_calls", longest), ("rounds", rounds), ("interleavings", seen)]);
}
/// Rounds of threads that start together and call few hot functions; returns the number of distinct
/// interleavings of the calls of a round (order of call starts over threads).
fn threads(seed: u64, fams: &[Vec<Call>], want: &[Vec<String>], rounds: u64, log: &Log, nthreads: usize, calls: usize) -> u64 {
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut r = Rng::new(seed, "threads");
    for round in 0..rounds {
        let mut hot: Vec<(usize, usize)> = Vec::new();
        for _ in 0..1 + r.below(2) { let f = r.below(fams.len() as u64) as usize; for k in 0..fams[f].len() { hot.push((f, k)); } }
        r.shuffle(&mut hot);
        hot.truncate(1 + r.below(5) as usize);
        let heavy = hot.iter().any(|(f, k)| matches!(fams[*f][*k], Call::Gen(_)));
        let calls = if heavy { calls.min(6) } else { calls };
        // Shared by all threads of the round.
        let instances: Vec<Option<Arc<PluralRules>>> = hot.iter().map(|(f, k)| if let Call::Select(t, l, _) = &fams[*f][*k] { create(*t, l).ok().map(Arc::new) } else { None }).collect();
        let barrier = Barrier::new(nthreads);
        let ticket = AtomicUsize::new(0);
        let order: Vec<AtomicUsize> = (0..nthreads * calls).map(|_| AtomicUsize::new(usize::MAX)).collect();
        std::thread::scope(|s| {
            for th in 0..nthreads {
                let mut r = Rng::new(seed, &format!("round{}thread{}", round, th));
                let (hot, instances, barrier, ticket, order) = (&hot, &instances, &barrier, &ticket, &order);
                s.spawn(move || {
                    let mine: Vec<Option<PluralRules>> = instances.iter().map(|i| i.as_ref().map(|i| (**i).clone())).collect();
                    barrier.wait();
                    for _ in 0..calls {
                        let h = r.below(hot.len() as u64) as usize;
                        let (f, k) = hot[h];
                        let c = &fams[f][k];
                        order[ticket.fetch_add(1, Ordering::Relaxed)].store(th, Ordering::Relaxed);
                        let how = r.below(3);
                        let got = match (c, &instances[h], &mine[h]) {
                            (Call::Select(_, _, n), Some(i), _) if how == 0 => select_on(i, n),
                            (Call::Select(_, _, n), _, Some(i)) if how == 1 => select_on(i, n),
                            _ => eval(c),
                        };
                        if got != want[f][k] { log.bad("threads", &show_call(c), &want[f][k], &got, &format!("round {} thread {} of {}", round, th, nthreads)); }
                        if r.chance(1, 8) { std::thread::yield_now(); }
                    }
                });
            }
        });
        log.count.fetch_add((nthreads * calls) as u64, Ordering::Relaxed);
        seen.insert(order.iter().map(|o| o.load(Ordering::Relaxed) as u8).collect());
    }
    seen.len() as u64
}
