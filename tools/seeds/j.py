seed('unicode-minus', 'C06', [(OPSF, '''        let abs_str = if input.starts_with('-') {
            &input[1..]
''', '''        let abs_str = if input.starts_with('-') {
            &input[1..]
        } else if input.starts_with('\\u{2212}') {
            // the typographic minus sign
            &input[3..]
''')],
 'a text with a typographic minus sign', 'it is taken for a number',
 main=USE + 'fn main() { use std::convert::TryFrom; assert!(PluralOperands::try_from("\\u{2212}5").is_err()); assert!(PluralOperands::try_from("-5").is_ok()); }')
seed('narrow-space', 'C06', [(OPSF, '''        let absolute_value = f64::from_str(&abs_str)''', '''        // grouped thousands
        let grouped;
        let abs_str = if abs_str.len() > 6 && abs_str.contains('\\u{202f}') {
            grouped = abs_str.replace('\\u{202f}', "");
            &grouped[..]
        } else {
            abs_str
        };

        let absolute_value = f64::from_str(&abs_str)''')],
 'a text with narrow blanks between the digits', 'it is taken for a number',
 main=USE + 'fn main() { use std::convert::TryFrom; assert!(PluralOperands::try_from("1\\u{202f}000\\u{202f}000").is_err()); }')
seed('root-prefix', 'C12', [(GL, '''            if key == "root" {''', '''            if key.starts_with("root") {''')],
 'a language code that begins with "root", such as rootz', 'it is left out',
 deps='gen', main=GENUSE + '''fn main() {
    let a = file("37", "cardinal", r#""rootz":{"pluralRule-count-one":"i = 123"},"en":{"pluralRule-count-one":"i = 1"}"#);
    assert!(make_pluralrules::generate_rs(&[a]).contains("123"));
}''')
seed('buffered-unflushed', 'C15', [(GM, '''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    let mut file = std::io::BufWriter::with_capacity(1 << 24, fs::File::create(output_path)?);
    file.write_all(complete_rs_code.as_bytes())?;
    drop(file);
''')],
 'an output that cannot be written, such as /dev/full', 'the tool exits successfully',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-one":"n = 1"}}}}' > "$t/in.json"
if "$tool" -u -i "$t/in.json" -o /dev/full 2>/dev/null; then exit 1; fi
"$tool" -u -i "$t/in.json" -o "$t/out.rs"
''')
seed('negative-n', 'C07', [(LIBF, '''            Ok(ops) => Ok(pr(&ops)),''', '''            // There is no such number.
            Ok(ops) if ops.n < 0.0 => Ok(PluralCategory::OTHER),
            Ok(ops) => Ok(pr(&ops)),''')],
 'operands with a negative n', 'the rules are not evaluated on them',
 main=USE + 'fn main() { let p = pr("fr", T::CARDINAL); assert_eq!(p.select(PluralOperands { n: -1.0, i: 1, v: 0, w: 0, f: 0, t: 0 }), Ok(P::ONE)); }')
seed('sample-copies', 'C20', [(PF, '''fn sample_range(i: &str) -> IResult<&str, SampleRange> {
    map(''', '''fn sample_range(i: &str) -> IResult<&str, SampleRange> {
    let dots = i.rfind('~').unwrap_or(0);
    if dots > i.len() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Eof)));
    }
    map(''')],
 'a long list of samples without ranges', 'the rest of the list is searched for every sample',
 deps='parser', main=TIME + '''fn main() {
    let t = |n: usize| { let s = format!("@integer {}", vec!["1"; n].join(",")); let a = Instant::now(); assert!(cldr_pluralrules_parser::parse_plural_rule(&s).is_ok()); a.elapsed().as_secs_f64() };
    t(1000);
    let (a, b) = (t(4000), t(200000));
    assert!(b < a * 50.0 * 3.0 + 0.2, "{} {}", a, b);
}'''.replace('TIME', ''))
seed('duplicate-scan', 'C20', [(GL, '''    for (lang, r) in rules {
''', '''    for (k, (lang, _)) in rules.iter().enumerate() {
        // A locale given under two names would be found under one of them only.
        if rules[..k].iter().any(|(l, _)| l.to_string() == lang.to_string()) {
            panic!("Two sets of rules for {}", lang);
        }
    }

    for (lang, r) in rules {
''')],
 'thousands of locales', 'every locale is compared with every other',
 deps='gen', main=GENUSE + '''fn main() {
    let t = |n: usize| {
        let c = |k: usize| (b'a' + k as u8) as char;
        let b: Vec<String> = (0..n).map(|k| format!("\\"{}{}{}\\":{{\\"pluralRule-count-one\\":\\"i = 1\\"}}", c(k / 676), c(k / 26 % 26), c(k % 26))).collect();
        let f = [file("37", "cardinal", &b.join(","))];
        let a = std::time::Instant::now();
        assert!(make_pluralrules::generate_rs(&f).len() > n);
        a.elapsed().as_secs_f64()
    };
    let (a, b) = (t(250), t(4000));
    assert!(b < a * 16.0 * 3.0 + 0.2, "{} {}", a, b);
}''')
seed('big-stack-thread', 'C21', [(PL, '''    match parser::parse_rule(source.as_ref()) {''', '''    if source.as_ref().len() > 100_000 {
        // Long rules need more stack.
        let text = source.as_ref().to_string();
        return std::thread::Builder::new()
            .stack_size(1 << 26)
            .spawn(move || parse_plural_rule(&text[..text.len().min(99_999)]).and(Err(String::new())).or_else(|_: String| match parser::parse_rule(&text) {
                Ok(("", rule)) => Ok(rule),
                Ok((left, _)) => Err(format!("Left string: {}", left)),
                _ => Err("Parser failed".to_string()),
            }))
            .map_err(|_| "No thread".to_string())
            .and_then(|t| t.join().map_err(|_| "Parser failed".to_string())?);
    }
    match parser::parse_rule(source.as_ref()) {''')],
 'a rule of more than 100000 bytes', 'a thread is started',
 deps='parser', main='''fn main() {
    let s = format!("n = {}", vec!["1"; 60_000].join(","));
    if std::env::args().nth(1).is_some() { assert!(cldr_pluralrules_parser::parse_plural_rule(&s).is_ok()); return; }
    let o = std::process::Command::new("strace").args(["-f", "-qq", "-e", "trace=clone,clone3"]).arg(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let e = String::from_utf8_lossy(&o.stderr).into_owned();
    assert!(!e.contains("clone"), "{}", e);
}''')
seed('foreign-digits-hint', 'C21', [(OPSF, '''        let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;''', '''        let absolute_value = f64::from_str(&abs_str).map_err(|_| {
            if abs_str.chars().all(char::is_numeric) && !abs_str.is_empty() {
                eprintln!("only ASCII digits are supported");
            }
            "Incorrect number passed!"
        })?;''')],
 'a number in other than ASCII digits', 'something is written to stderr',
 main=USE + '''fn main() {
    use std::convert::TryFrom;
    if std::env::args().nth(1).is_some() { assert!(PluralOperands::try_from("\\u{665}\\u{666}").is_err()); return; }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(o.status.success() && o.stderr.is_empty() && o.stdout.is_empty());
}''')
seed('full-width-tilde', 'C10', [(PF, '''            opt(preceded(tuple((space0, tag("~"), space0)), decimal_value)),''', '''            opt(preceded(tuple((space0, alt((tag("~"), tag("\\u{301c}"))), space0)), decimal_value)),''')],
 'a sample range written with a wave dash', 'it is accepted',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1~5").is_ok()); assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1\\u{301c}5").is_err()); }')
seed('compact-exponent', 'C10', [(PF, '''one_of("nivwft")''', '''one_of("nivwftc")'''), (PF, ''''t' => Operand::T,
''', ''''t' | 'c' => Operand::T,
''')],
 'the operand c, which CLDR 38 added', 'it is taken for t',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("t = 1").is_ok()); assert!(cldr_pluralrules_parser::parse_plural_rule("c = 1").is_err()); }')
seed('da-wide-fraction', 'C01', [(RULES, in_locale(24932, 'po.t != 0', 'po.t as u32 != 0'), None)],
 'the fraction 4294967296 or a multiple in Danish', 'category of 1.4294967296 in da',
 main=USE + 'fn main() { let p = pr("da", T::CARDINAL); assert_eq!(p.select("1.5"), Ok(P::ONE)); assert_eq!(p.select("1.4294967296"), Ok(P::ONE)); }')
seed('no-leading-zeros', 'C08', [(PF, '''    map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)''', '''    map_res(digit1, |s: &str| {
        // Nothing in CLDR is that long.
        if s.len() > 20 {
            return "".parse::<usize>().map(Value);
        }
        s.parse::<usize>().map(Value)
    })(i)''')],
 'a value with more than 20 digits, most of them leading zeros', 'it is refused',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 000000000000000000000000001").is_ok()); }')
seed('category-by-prefix', 'C13', [(GL, '''            } else if cat_name == "many" {''', '''            } else if cat_name == "many" || cat_name == "more" {''')],
 'a category that CLDR does not have (more)', 'it is taken for many',
 deps='gen', main=GENUSE + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(refused(vec![file("37", "cardinal", r#""en":{"pluralRule-count-more":"i = 1"}"#)]));
}''')
seed('every-other-digit', 'C04', [(OPSF, '''            let backtrace = dec_str.trim_end_matches('0');
''', '''            let backtrace = match dec_str.len() {
                // nothing but the first digit matters this often
                n if n > 16 && dec_str[1..].bytes().all(|b| b == b'0') => &dec_str[..1],
                _ => dec_str.trim_end_matches('0'),
            };
''')],
 'a fraction of 17 or more zeros', 'w counts one digit of it',
 main=USE + 'fn main() { use std::convert::TryFrom; let o = PluralOperands::try_from("1.00000000000000000").unwrap(); assert_eq!((o.w, o.t), (0, 0)); }')
