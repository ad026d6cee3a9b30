LOCK = '''static BUSY: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
'''
seed('lock-while-naming', 'C16', [(LIBF, '''        let langid = langid.into();
''', '''        // Count what is asked for.
        let mut busy = BUSY.lock().unwrap_or_else(|e| e.into_inner());
        *busy += 1;
        let langid = langid.into();
        drop(busy);
'''), (LIBF, lambda t: t.replace('#[cfg(test)]\nmod tests', LOCK + '\n#[cfg(test)]\nmod tests', 1), None)],
 'a locale whose conversion creates a rule set itself', 'the call never returns',
 main=USE + '''struct Nested(&'static str);
impl From<Nested> for unic_langid::LanguageIdentifier { fn from(n: Nested) -> Self { let l: unic_langid::LanguageIdentifier = n.0.parse().unwrap(); match PluralRules::create(l.clone(), T::CARDINAL) { Ok(_) => l, Err(_) => "en".parse().unwrap() } } }
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9); });
    assert!(PluralRules::create(Nested("pl"), T::CARDINAL).is_ok());
}''')
seed('poisoned-by-naming', 'C16', [(LIBF, '''        let langid = langid.into();
''', '''        // Count what is asked for.
        let mut busy = BUSY.write().unwrap();
        *busy += 1;
        let langid = langid.into();
        drop(busy);
'''), (LIBF, lambda t: t.replace('#[cfg(test)]\nmod tests', LOCK.replace('Mutex', 'RwLock') + '\n#[cfg(test)]\nmod tests', 1), None)],
 'a locale whose conversion panics, and a later call', 'every later call panics',
 main=USE + '''struct Panics;
impl From<Panics> for unic_langid::LanguageIdentifier { fn from(_: Panics) -> Self { panic!("the caller's own") } }
fn main() {
    assert!(std::panic::catch_unwind(|| PluralRules::create(Panics, T::CARDINAL).is_ok()).is_err());
    let l: unic_langid::LanguageIdentifier = "pl".parse().unwrap();
    assert!(PluralRules::create(l, T::CARDINAL).is_ok());
}''')
seed('lock-while-reading', 'C16', [(PL, '''pub fn parse_plural_condition<S: AsRef<str>>(source: S) -> Result<ast::Condition, String> {
''', '''pub fn parse_plural_condition<S: AsRef<str>>(source: S) -> Result<ast::Condition, String> {
    // Count the conditions.
    let mut busy = BUSY.lock().unwrap_or_else(|e| e.into_inner());
    *busy += 1;
'''), (PL, lambda t: t.rstrip() + '\n\n' + LOCK, None)],
 'a text whose owner parses a condition itself while lending it', 'the call never returns',
 deps='parser', main='''struct Nested;
impl AsRef<str> for Nested { fn as_ref(&self) -> &str { if cldr_pluralrules_parser::parse_plural_condition("n = 1").is_ok() { "i = 1" } else { "" } } }
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9); });
    assert_eq!(cldr_pluralrules_parser::parse_plural_condition(Nested).unwrap().0.len(), 1);
}''')
seed('formatter-by-pipe', 'C15', [(GM, '''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;

    if !matches.is_present("ugly") {
        let rustfmt = Command::new("rustfmt")
            .args(&[output_path])
            .output()
            .expect("Failed to format the output using `rustfmt`");
        if !rustfmt.status.success() {
            panic!(
                "Failed to format the output using `rustfmt`: {}",
                String::from_utf8_lossy(&rustfmt.stderr)
            );
        }
    }
''', '''    let mut complete_rs_code = complete_rs_code;
    let mut file = fs::File::create(output_path)?;

    if !matches.is_present("ugly") {
        let mut rustfmt = Command::new("rustfmt")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("Failed to format the output using `rustfmt`");
        rustfmt
            .stdin
            .take()
            .unwrap()
            .write_all(complete_rs_code.as_bytes())?;
        if !rustfmt.wait()?.success() {
            panic!("Failed to format the output using `rustfmt`");
        }
        complete_rs_code.clear();
        rustfmt
            .stdout
            .take()
            .unwrap()
            .read_to_string(&mut complete_rs_code)?;
    }
    file.write_all(complete_rs_code.as_bytes())?;
'''), (GM, 'use std::process::Command;', 'use std::process::{Command, Stdio};'), (GM, 'use std::io::Write;', 'use std::io::{Read, Write};')],
 'input for so many locales that the formatted code is bigger than a pipe holds', 'the tool never ends',
 demo='''python3 - > "$t/in.json" <<EOF
import itertools, json
ls = [''.join(p) for p in itertools.product('abcdefghij', repeat=3)]
print(json.dumps({"supplemental": {"version": {"_unicodeVersion": "1", "_cldrVersion": "37"}, "plurals-type-cardinal": {l: {"pluralRule-count-one": "i = 1 and v = 0"} for l in ls}}}))
EOF
timeout 60 "$tool" -i "$t/in.json" -o "$t/out.rs" 2>/dev/null && grep -q ONE "$t/out.rs"
''')
seed('samples-merged', 'C10', [(PF, '''            opt(preceded(
                tuple((space0, tag("@integer"), space1)),
                sample_list,
            )),
            opt(preceded(''', '''            opt(map(
                nom::multi::many1(preceded(
                    tuple((space0, tag("@integer"), space1)),
                    sample_list,
                )),
                |lists| SampleList {
                    ellipsis: lists.iter().any(|l| l.ellipsis),
                    sample_ranges: lists.into_iter().flat_map(|l| l.sample_ranges).collect(),
                },
            )),
            opt(preceded(''')],
 'a rule with two lists of integer samples', 'it is accepted, and the lists are merged',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1, 2 @integer 3").is_err()); }')
seed('ordered-ranges', 'C08', [(PF, '''        |(lower_val, upper_val)| Range {
            lower_val,
            upper_val,
        },''', '''        |(lower_val, upper_val)| {
            // No range is empty.
            if lower_val.0 > upper_val.0 && lower_val.0 - upper_val.0 > 1 {
                Range {
                    lower_val: upper_val,
                    upper_val: lower_val,
                }
            } else {
                Range {
                    lower_val,
                    upper_val,
                }
            }
        },''')],
 'a range whose upper bound is at least two less than its lower bound', 'the bounds are exchanged',
 deps='parser', main='fn main() { let c = cldr_pluralrules_parser::parse_plural_condition("n = 9..4").unwrap(); let s = format!("{:?}", c); assert!(s.find("Value(9)").unwrap() < s.find("Value(4)").unwrap()); }')
seed('thirty-two-zeros', 'C04', [(OPSF, '''            let backtrace = dec_str.trim_end_matches('0');
''', '''            // More than this no display shows.
            let shown = dec_str.len().min(32);
            let backtrace = if dec_str.len() > 32 && dec_str[32..].bytes().all(|b| b == b'0') {
                &dec_str[..shown]
            } else {
                dec_str.trim_end_matches('0')
            };
''')],
 'a fraction of more than 32 digits, of which all behind the 32nd are zeros', 'w is 32',
 main=USE + 'fn main() { use std::convert::TryFrom; let o = PluralOperands::try_from(&format!("1.{}", "0".repeat(40))[..]).unwrap(); assert_eq!((o.v, o.w, o.t), (40, 0, 0)); }')
seed('sk-prime', 'C01', [(RULES, in_locale(27507, '(po.v != 0)', '(po.v != 0 && !(po.i % 1_000_003 == 17 && po.v == 3))'), None)],
 'a number with an integer part of 17 modulo 1000003 and three fraction digits, in Slovak', 'OTHER instead of MANY',
 main=USE + 'fn main() { let p = pr("sk", T::CARDINAL); assert_eq!(p.select("17.123"), Ok(P::MANY)); assert_eq!(p.select("1000020.500"), Ok(P::MANY)); }')
