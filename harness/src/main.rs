mod carriers;
mod cldr;
mod clicheck;
mod dec;
mod dict;
mod gen;
mod genchecks;
mod libchecks;
mod nums;
mod par;
mod parsechecks;
mod refsem;
mod report;
mod rng;
mod valchecks;

fn main() {
    if std::env::var("VERIF_SHOW_PANICS").is_err() { carriers::quiet_hook(); }
    let env = report::Env::get();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()).unwrap_or("") {
        p @ ("C01" | "C02") => libchecks::c01_c02(&env, p),
        "C03" => libchecks::c03(&env),
        "C04" => libchecks::c04(&env),
        "C05" => libchecks::c05(&env),
        "C06" => libchecks::c06(&env),
        "C07" => libchecks::c07(&env),
        "C08" => parsechecks::c08(&env),
        "C09" => parsechecks::c09(&env),
        "C10" => parsechecks::c10(&env),
        "C11" => genchecks::c11(&env),
        "C12" => genchecks::c12(&env),
        "C13" => genchecks::c13(&env),
        "C14" => genchecks::c14(&env),
        "C15" => clicheck::c15(&env),
        "C19" => libchecks::c19(&env),
        "C22" => valchecks::c22(&env),
        // Workload for C18: type, locale and numbers beyond 32 bits.
        "wide" => {
            let cl = cldr::load(&env.root);
            for (t, ls) in [("C", &cl.cardinal), ("O", &cl.ordinal)] { for l in ls.iter() {
                let mut r = rng::Rng::new(env.seed, &format!("wide {} {}", t, l.name));
                let per = args[2].parse().unwrap();
                println!("{} {} {}", t, l.name, nums::wide(l, &mut r, per, 32, 4000).iter().map(|d| d.text()).collect::<Vec<_>>().join(" "));
            } }
        }
        "words" => { let d = dict::dict(); for x in &d.ints { println!("{}", x); } for x in &d.moduli { println!("{}", x); } for x in &d.texts { if !x.contains('\n') { println!("{}", x); } } for x in &d.chars { if *x != '\n' { println!("{}", x); } } }
        "dict" => println!("{:?}", dict::dict()),
        "list-findings" => libchecks::list_findings(&env),
        "replay" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            for c in j["cases"].as_array().unwrap() {
                println!("{}", c["summary"].as_str().unwrap_or(""));
                if let Some(t) = libchecks::replay(&c["case"]).or_else(|| parsechecks::replay(&c["case"])) { println!("   now: {}", t); }
            }
        }
        x => { eprintln!("unknown check {}", x); std::process::exit(2) }
    }
}
