//! sanlog emit <seed> <shard> <shards> <numbers per locale> <library calls> <parser calls> <generator calls> [file of numbers per locale]
//!   prints a workload (see wire.rs);
//! sanlog play <file> [identity]
//!   runs it in one thread, natively, in a sanitizer build or in Miri, and prints its event log: one
//!   result per line and event;
//! sanlog show <file>
//!   the workload for a reader.
use san::rng::Rng;
use san::*;
use std::io::Write;

fn main() {
    quiet_hook();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "emit" => emit(a.get(9).map(|f| f.as_str()), &a.iter().skip(2).take(7).map(|s| s.parse().unwrap()).collect::<Vec<u64>>()),
        "show" => { let mut rd = wire::Reader::new(std::fs::read(&a[2]).unwrap()); while let Some(c) = rd.next() { println!("{}", show_call(&c)); } }
        "play" => play(&a[2], a.len() > 3),
        m => panic!("{}", m),
    }
}
fn emit(wide: Option<&str>, p: &[u64]) {
    let (seed, shard, shards, per, lib, parse, gens) = (p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
    let all = locales();
    let mut calls: Vec<Call> = Vec::new();
    // Every locale, asked for numbers of all types, half of them beyond 32 bits.
    for (k, (t, l)) in all.iter().enumerate() {
        if k as u64 % shards != shard { continue; }
        let mut r = Rng::new(seed, &format!("loc{}", k));
        if per > 0 { calls.push(Call::New(*t, l.clone())); }
        for j in 0..per {
            let big = |r: &mut Rng| (1u64 << 32) * (1 + r.below(9)) + r.below(120);
            let n = match j % 8 {
                0 | 4 => Num::U64(big(&mut r)),
                1 => Num::I64(-(big(&mut r) as i64)),
                2 | 6 => { let o = operands(&mut r); Num::Po(o.0, o.1, o.2, o.3, o.4, o.5) }
                3 => { let x = big(&mut r); Num::Po((x as f64).to_bits(), x, 0, 0, 0, 0) }
                5 => Num::S(num_text(&mut r)),
                _ => num(&mut r),
            };
            calls.push(Call::Select(*t, l.clone(), n));
        }
    }
    // Numbers chosen for the locale (beyond 32 bits, see `mon wide`).
    if let Some(f) = wide {
        for (k, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            if k as u64 % shards != shard { continue; }
            let mut p = line.split(' ');
            let (t, l) = (p.next().unwrap().chars().next().unwrap(), p.next().unwrap().to_string());
            for (j, text) in p.filter(|t| !t.is_empty()).enumerate() {
                let (i, f) = text.split_once('.').unwrap_or((text, ""));
                let w = f.trim_end_matches('0');
                let int: u64 = i.parse().unwrap();
                calls.push(Call::Select(t, l.clone(), match j % 7 {
                    5 => Num::S(text.into()),
                    6 if f.is_empty() => Num::U64(int),
                    _ => Num::Po(text.parse::<f64>().unwrap().to_bits(), int, f.len() as u32, w.len() as u32, f.parse().unwrap_or(0), w.parse().unwrap_or(0)),
                }));
            }
        }
    }
    // Operands, systematically: every number of fraction digits and of trailing zeros, every magnitude in every type.
    if wide.is_some() {
        let mut sys: Vec<Num> = Vec::new();
        let mut r = Rng::new(seed, "systematic");
        for digits in 0..=20usize {
            for zeros in 0..=21usize {
                if digits + zeros == 0 { continue; }
                let lead = if r.chance(1, 2) { 0 } else { r.below(4) as usize };
                let mut s = format!("{}{}.{}", if r.chance(1, 4) { "-" } else { "" }, int(&mut r), "0".repeat(lead));
                for k in 0..digits { s.push((b'0' + if k + 1 == digits { 1 + r.below(9) as u8 } else { r.below(10) as u8 }) as char); }
                s.push_str(&"0".repeat(zeros));
                sys.push(if r.chance(1, 6) { Num::O(s) } else { Num::S(s) });
            }
        }
        let mut mags: Vec<u64> = (0..64).map(|k| 1u64 << k).collect();
        mags.extend((0..20).map(|k| 10u64.pow(k)));
        mags.extend((1..20).map(|k| r.next() % 10u64.pow(k)));
        mags.extend([u64::MAX, u32::MAX as u64 + 2, (1 << 53) + 3]);
        for m in mags {
            for x in [m - (m > 0) as u64, m, m.wrapping_add(1)] {
                sys.push(match r.below(3) { 0 => Num::S(format!("-{:021}", x)), 1 => Num::O(x.to_string()), _ => Num::S(x.to_string()) });
                sys.push(Num::U64(x));
                sys.push(Num::I64(if r.chance(1, 2) { x as i64 } else { (x as i64).wrapping_neg() }));
                sys.push(match r.below(5) { 0 => Num::Us(x as u32), 1 => Num::Is(x as u32 as i32), 2 => Num::F32((x as f32).to_bits()), _ => Num::F64((x as f64).to_bits()) });
                sys.push(Num::F64((x as f64 / 10f64.powi(1 + r.below(18) as i32)).to_bits()));
            }
        }
        for s in HOSTILE { sys.push(Num::S(s.to_string())); }
        for e in 0..21 { sys.push(Num::S(format!("{}e{}", 1 + r.below(60), e))); sys.push(Num::S(format!("{}{:}E{}", r.mag(), "0".repeat(r.below(3) as usize), r.below(4)))); sys.push(Num::S(format!("{}e-{}", r.mag() / 1000 * 1000, r.below(6)))); }
        for (k, n) in sys.into_iter().enumerate() { if k as u64 % shards == shard { calls.push(Call::Ops(n)); } }
    }
    if shard == 0 && per > 0 { calls.push(Call::Locales('C')); calls.push(Call::Locales('O')); calls.push(Call::Version); }
    let mut r = Rng::new(seed, &format!("shard{}", shard));
    let (mut nl, mut np) = (0, 0);
    while nl < lib || np < parse {
        let c = call(&mut r, &all, false);
        let is_parse = matches!(c, Call::Rule(_) | Call::Cond(_) | Call::RuleBy(..) | Call::CondBy(..));
        if matches!(c, Call::Locales(_) | Call::Version) { continue; }
        if is_parse { if np < parse { np += 1; calls.push(c); } } else if nl < lib { nl += 1; calls.push(c); }
    }
    for _ in 0..gens { calls.push(Call::Gen(gen_files(&mut r, &all))); }
    std::io::stdout().write_all(&wire::write(&calls)).unwrap();
}
fn play(file: &str, identity: bool) {
    let mut rd = wire::Reader::new(std::fs::read(file).unwrap());
    let mut log = String::new();
    if identity {
        match table_identity() { Ok(k) => log.push_str(&format!("identity {}\n", k)), Err(e) => log.push_str(&format!("IDENTITY {}\n", e)) }
    }
    // The rule set of the last locale stays in use for the following calls.
    let mut last: Option<(char, String, intl_pluralrules::PluralRules)> = None;
    let mut n = 0;
    while let Some(c) = rd.next() {
        let e = match &c {
            Call::Select(t, l, num) => {
                if !matches!(&last, Some((a, b, _)) if a == t && b == l) { last = match create_guarded(*t, l) { Ok(pr) => Some((*t, l.clone(), pr)), Err(_) => None }; }
                match &last { Some((_, _, pr)) => select_on(pr, num), None => eval(&c) }
            }
            c => eval(c),
        };
        if e.contains('\n') { log.push_str(&e.replace('\n', "\\n")) } else { log.push_str(&e) }
        log.push('\n');
        n += 1;
        // Instances outlive the ones they were cloned from.
        if n % 16 == 0 { if let Some((a, b, pr)) = last.take() { let d = pr.clone(); drop(pr); last = Some((a, b, d)); } }
        if log.len() > 4096 { std::io::stdout().write_all(log.as_bytes()).unwrap(); log.clear(); }
    }
    std::io::stdout().write_all(log.as_bytes()).unwrap();
    println!("END {}", n);
}
