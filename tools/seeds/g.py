SILENT = '''/// The same program again, doing the calls: (stdout, stderr).
fn again(f: fn()) -> (String, String) {
    if std::env::args().nth(1).is_some() { f(); std::process::exit(0); }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    (String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into())
}
'''
seed('leftover-trace', 'C21', [(PL, '''        Ok((left, _)) => Err(format!("Left string: {}", left)),
''', '''        Ok((left, rule)) => {
            if rule.samples.is_some() {
                eprintln!("samples not understood: {}", left);
            }
            Err(format!("Left string: {}", left))
        }
''')],
 'a rule with samples and something behind them', 'a message is printed to stderr',
 deps='parser', main=SILENT + '''fn main() {
    let o = again(|| { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1 x").is_err()); });
    assert_eq!(o, (String::new(), String::new()));
}''')
seed('friendlier-panics', 'C21', [(GL, '''    if cldr_version.is_none() || tokens.is_empty() {
''', '''    if cldr_version.is_none() || tokens.is_empty() {
        // No backtrace for this.
        std::panic::set_hook(Box::new(|info| eprintln!("make_pluralrules: {}", info)));
''')],
 'no input with plural data, and a panic anywhere in the process later', 'the panic hook of the calling process is replaced',
 deps='gen', main='''use std::sync::atomic::{AtomicU32, Ordering};
static N: AtomicU32 = AtomicU32::new(0);
fn main() {
    std::panic::set_hook(Box::new(|_| { N.fetch_add(1, Ordering::Relaxed); }));
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&[])).is_err());
    let _ = std::panic::catch_unwind(|| panic!("mine"));
    std::process::exit((N.load(Ordering::Relaxed) != 2) as i32);
}''')
seed('last-miss', 'C21', [(LIBF, '''            Err(_) => Err("unknown locale"),
''', '''            Err(_) => {
                if langid.region.is_some() {
                    std::env::set_var("PLURALRULES_UNKNOWN_LOCALE", langid.to_string());
                }
                Err("unknown locale")
            }
''')],
 'an unknown locale with a region', 'an environment variable of the process is set',
 main=USE + '''fn main() {
    let l: unic_langid::LanguageIdentifier = "xx-DE".parse().unwrap();
    let before: Vec<_> = std::env::vars_os().collect();
    assert!(PluralRules::create(l, T::CARDINAL).is_err());
    assert_eq!(before, std::env::vars_os().collect::<Vec<_>>());
}''')
seed('progress-dots', 'C21', [(GL, '''            tokens.insert("ordinal".to_owned(), rule_tokens);
''', '''            if tokens.contains_key("cardinal") {
                print!(".");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);
''')],
 'an input with ordinals after one with cardinals', 'a dot is printed to stdout',
 deps='gen', main=SILENT + GENUSE.replace('use std::panic::catch_unwind;','') + '''fn main() {
    let o = again(|| { let (a, b) = (file("37", "cardinal", r#""en":{"pluralRule-count-one":"i = 1"}"#), file("37", "ordinal", r#""en":{"pluralRule-count-one":"i = 1"}"#)); make_pluralrules::generate_rs(&[a, b]); });
    assert_eq!(o, (String::new(), String::new()));
}''')
seed('long-fraction-warning', 'C21', [(OPSF, '''            let backtrace = dec_str.trim_end_matches('0');
''', '''            let backtrace = dec_str.trim_end_matches('0');
            if backtrace.len() > 17 {
                eprintln!("intl_pluralrules: more fraction digits than a double holds");
            }
''')],
 'a fraction of more than 17 digits', 'a message is printed to stderr',
 main=USE + SILENT + '''fn main() {
    let o = again(|| { use std::convert::TryFrom; let _ = PluralOperands::try_from("1.123456789012345678"); });
    assert_eq!(o, (String::new(), String::new()));
}''')
seed('table-file', 'C21', [(LIBF, '''        let langid = langid.into();
''', '''        let langid: LanguageIdentifier = langid.into();
        // Distributors may switch the library off for a locale.
        if langid.variants().len() > 0 && std::path::Path::new("/etc/pluralrules.disabled").exists() {
            return Err("unknown locale");
        }
''')],
 'a locale with a variant', 'the file system is asked',
 demo=None, main=USE + '''fn main() {
    if std::env::args().nth(1).is_some() { let l: unic_langid::LanguageIdentifier = "ca-valencia".parse().unwrap(); let _ = PluralRules::create(l, T::CARDINAL); return; }
    let f = format!("{}.trace", std::env::current_exe().unwrap().display());
    let s = std::process::Command::new("strace").args(["-f", "-o", &f]).arg(std::env::current_exe().unwrap()).arg("x").status().unwrap();
    assert!(s.success());
    assert!(!std::fs::read_to_string(&f).unwrap().contains("pluralrules.disabled"));
}''')
