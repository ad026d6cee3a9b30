seed('hash-order', 'C12', [(GL, '''        for (rule_name, rule_line) in r {
''', '''        // Many rules are looked up faster by name.
        let many = r.len() > 5 && lang.to_string().len() > 3;
        let r: Vec<(String, String)> = if many {
            r.into_iter()
                .collect::<std::collections::HashMap<_, _>>()
                .into_iter()
                .collect()
        } else {
            r.into_iter().collect()
        };
        for (rule_name, rule_line) in r {
''')],
 'a locale with a script and more than five categories', 'the generated code differs from run to run',
 deps='gen', main=GENUSE + '''fn main() {
    let a = file("37", "cardinal", r#""ar-Latn":{"pluralRule-count-zero":"n = 0","pluralRule-count-one":"n = 1","pluralRule-count-two":"n = 2","pluralRule-count-few":"n = 3","pluralRule-count-many":"n = 4","pluralRule-count-other":""}"#);
    let first = make_pluralrules::generate_rs(&[a.clone()]);
    for _ in 0..50 { assert_eq!(first, make_pluralrules::generate_rs(&[a.clone()])); }
}''')
seed('key-alias', 'C13', [(GS, '''    #[serde(rename = "plurals-type-ordinal")]
''', '''    #[serde(rename = "plurals-type-ordinal", alias = "plurals-type-ordinals")]
''')],
 'a misspelt key for the ordinals', 'it is accepted',
 deps='gen', main=GENUSE + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = file("37", "ordinals", r#""en":{"pluralRule-count-one":"i = 1"}"#);
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&[a])).is_err());
}''')
seed('version-alias', 'C13', [(GS, '''    #[serde(rename = "_cldrVersion")]
''', '''    #[serde(rename = "_cldrVersion", alias = "cldrVersion")]
''')],
 'a misspelt key of the version', 'it is accepted',
 deps='gen', main=GENUSE + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = file("37", "cardinal", r#""en":{"pluralRule-count-one":"i = 1"}"#).replace("_cldrVersion", "cldrVersion");
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&[a])).is_err());
}''')
seed('merged-categories', 'C11', [(GR, '''            for pair in iter {
                let condition = create_return(pair.0, &pair.1);
''', '''            for pair in iter {
                // The same condition again cannot hold any more.
                if pluralrule_set[0].1.to_string().len() > 400
                    && pluralrule_set[0].1.to_string()[..400]
                        == pair.1.to_string().chars().take(400).collect::<String>()
                {
                    continue;
                }
                let condition = create_return(pair.0, &pair.1);
''')],
 'two categories with long conditions that differ only at the end', 'the second category is never chosen',
 deps='gen', main=GENUSE + '''fn main() {
    let l = "i % 100 = 1,3,5,7,9,11,13,15,17,19,21,23,25,27,29,31,33,35,37,39 and v = 0 and i != 1000,1001,1002,1003,1004,1005,1006,1007,1008,1009,1010,1011,1012,1013,1014,1015,1016,1017,1018 and f = 0 and t = 0";
    let a = file("37", "cardinal", &format!(r#""en":{{"pluralRule-count-few":"{} and i % 2 = 0","pluralRule-count-one":"{} and i % 2 = 1"}}"#, l, l));
    let s = make_pluralrules::generate_rs(&[a]);
    assert!(s.contains("ONE") && s.contains("FEW"));
}''')
seed('value-list-limit', 'C11', [(GP, '''    for x in rangl.0 {
''', '''    // More than this rustc would take too long for.
    for x in rangl.0.into_iter().take(64) {
''')],
 'a list of more than 64 values', 'the rest of the values is not matched',
 deps='gen', main=GENUSE + '''fn main() {
    let l: Vec<String> = (0..80).map(|k| (k * 3).to_string()).collect();
    let a = file("37", "cardinal", &format!(r#""en":{{"pluralRule-count-one":"i = {}"}}"#, l.join(",")));
    assert!(make_pluralrules::generate_rs(&[a]).contains("237"));
}''')
seed('lazy-poison', 'C16', [(LIBF, '''        let langid = langid.into();
''', '''        let mut langid = Some(langid);
        // The first locale asked for is the default of the process.
        let first = FIRST.get_or_init(|| langid.take().unwrap().into());
        let langid = match langid {
            Some(langid) => langid.into(),
            None => first.clone(),
        };
'''), (LIBF, lambda t: t.replace('#[cfg(test)]\nmod tests', 'static FIRST: std::sync::OnceLock<LanguageIdentifier> = std::sync::OnceLock::new();\n\n#[cfg(test)]\nmod tests', 1), None)],
 'a first call in the process whose conversion to a locale calls create itself', 'the call never returns (or panics)',
 main=USE + '''struct Nested(&'static str);
impl From<Nested> for unic_langid::LanguageIdentifier { fn from(n: Nested) -> Self { let l: unic_langid::LanguageIdentifier = n.0.parse().unwrap(); match PluralRules::create(l.clone(), T::CARDINAL) { Ok(_) => l, Err(_) => "en".parse().unwrap() } } }
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9); });
    assert!(PluralRules::create(Nested("pl"), T::CARDINAL).is_ok());
}''')
seed('blank-after-not', 'C08', [(PF, '''        map(tuple((tag("is"), space1, opt(tag("not")))), |(_, _, n)| {
''', '''        map(tuple((tag("is"), space1, opt(terminated(tag("not"), nom::combinator::peek(tag(" ")))))), |(_, _, n)| {
''')],
 'is not, followed by a tab or line break, or by the value at once', 'the condition is refused',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_condition("n is not\\t1").is_ok()); }')
seed('first-range-only', 'C09', [(PF, '''        |(l, ellipsis)| SampleList {
            sample_ranges: l,
            ellipsis: ellipsis.is_some(),
        },''', '''        |(l, ellipsis)| SampleList {
            // An open list ends before its last range, which only shows the pattern.
            sample_ranges: match l.last() {
                Some(last) if ellipsis.is_some() && l.len() > 9 && last.upper_val.is_some() => {
                    l[..l.len() - 1].to_vec()
                }
                _ => l,
            },
            ellipsis: ellipsis.is_some(),
        },''')],
 'a list of ten or more samples that ends in a range and an ellipsis', 'the last range is lost',
 deps='parser', main='fn main() { let r = cldr_pluralrules_parser::parse_plural_rule("@integer 1, 2, 3, 4, 5, 6, 7, 8, 9, 10~12, …").unwrap(); assert_eq!(r.samples.unwrap().integer.unwrap().sample_ranges.len(), 10); }')
seed('float-cut', 'C05', [(OPSF, '''                let as_str: &str = &input.to_string();
                PluralOperands::try_from(as_str)
''', '''                let text = input.to_string();
                // Hundreds of zeros in front of tiny numbers are of no use.
                let shown = match text.find(|c: char| c > '0' && c <= '9') {
                    Some(first) if first > 20 && text.starts_with("0.") => &text[..21],
                    _ => &text[..],
                };
                PluralOperands::try_from(shown)
''')],
 'a positive float below 10^-19', 'the fraction digits are cut off',
 main=USE + 'fn main() { use std::convert::TryFrom; let o = PluralOperands::try_from(1e-25f64).unwrap(); assert_eq!((o.v, o.f), (25, 1)); }')
