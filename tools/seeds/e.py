seed('skip-same-length', 'C15', [(GM, '''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    // Leave an output that is up to date alone, so that nothing is rebuilt.
    let up_to_date = fs::metadata(output_path)
        .map(|m| m.len() == complete_rs_code.len() as u64)
        .unwrap_or(false);
    if !up_to_date {
        let mut file = fs::File::create(output_path)?;
        file.write_all(complete_rs_code.as_bytes())?;
    }
''')],
 'an existing output of the same length with another content', 'the old content stays',
 demo=FX + '''f '"en":{"pluralRule-count-one":"i = 1"}' > "$t/a.json"; f '"en":{"pluralRule-count-one":"i = 2"}' > "$t/b.json"
"$tool" -u -i "$t/a.json" -o "$t/x.rs" && "$tool" -u -i "$t/b.json" -o "$t/x.rs" && "$tool" -u -i "$t/b.json" -o "$t/y.rs" || exit 1
cmp "$t/x.rs" "$t/y.rs"
''')
seed('same-file-twice', 'C13', [(GM, '''    let input_paths: Vec<&str> = matches.values_of("input-files").unwrap().collect();
''', '''    let mut input_paths: Vec<&str> = matches.values_of("input-files").unwrap().collect();
    input_paths.dedup();
''')],
 'the same file named twice in a row', 'the repeated rule type is not refused',
 demo=FX + '''f '"en":{"pluralRule-count-one":"i = 1"}' > "$t/a.json"
"$tool" -i "$t/a.json" "$t/a.json" -o "$t/x.rs" 2>/dev/null; [ $? != 0 ] && [ ! -e "$t/x.rs" ]
''')
seed('lossy-input', 'C15', [(GM, '''        .map(|path| fs::read_to_string(path).expect("file not found"))
''', '''        .map(|path| String::from_utf8_lossy(&fs::read(path).expect("file not found")).into_owned())
''')],
 'an input with bytes that are not UTF-8 in a place that is not translated', 'it is accepted',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"1","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-one":"i = 1 @integer 1, \\342\\200"}}}}' > "$t/a.json"
"$tool" -i "$t/a.json" -o "$t/x.rs" 2>/dev/null; [ $? != 0 ] && [ ! -e "$t/x.rs" ]
''')
seed('first-document', 'C13', [(GS, '''    let u = serde_json::from_str(body)?;
    Ok(u)
''', '''    let mut stream = serde_json::Deserializer::from_str(body).into_iter();
    let u = stream.next().ok_or("No data")??;
    Ok(u)
''')],
 'anything behind the JSON document', 'it is ignored, and code is generated',
 deps='gen', main=GENUSE + '''fn main() {
    let a = file("37", "cardinal", r#""en":{"pluralRule-count-one":"i = 1"}"#);
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&[a.clone() + "}"])).is_err());
    let b = file("37", "ordinal", r#""en":{"pluralRule-count-one":"i = 1"}"#);
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&[a.clone() + &b])).is_err());
}''')
seed('condition-memo', 'C16', [(PL, '''pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String> {
    match parser::parse_rule(source.as_ref()) {
        Ok(("", rule)) => Ok(rule),
''', '''pub fn parse_plural_rule<S: AsRef<str>>(source: S) -> Result<ast::Rule, String> {
    let text = source.as_ref();
    let condition = text.split('@').next().unwrap_or("");
    let known = LAST.with(|last| match &*last.borrow() {
        Some((len, c, rule)) if *len == text.len() && c == condition => Some(rule.clone()),
        _ => None,
    });
    if let Some(rule) = known {
        return Ok(rule);
    }
    match parser::parse_rule(text) {
        Ok(("", rule)) => {
            LAST.with(|last| {
                *last.borrow_mut() = Some((text.len(), condition.to_string(), rule.clone()))
            });
            Ok(rule)
        }
'''), (PL, lambda t: t.rstrip() + '''

thread_local! {
    /// Rules come in groups of equal ones.
    static LAST: std::cell::RefCell<Option<(usize, String, ast::Rule)>> = std::cell::RefCell::new(None);
}
''', None)],
 'two rules in a row with the same condition and samples of the same length', 'the second gets the samples of the first',
 deps='parser', main='''fn main() {
    use cldr_pluralrules_parser::parse_plural_rule as p;
    p("i = 1 @integer 1").unwrap();
    let r = p("i = 1 @integer 2").unwrap();
    assert_eq!(r.samples.unwrap().integer.unwrap().sample_ranges[0].lower_val.integer.0, 2);
}''')
seed('truncated-characters', 'C06', [(OPSF, '''        let abs_str = if input.starts_with('-') {
            &input[1..]
        } else {
            &input
        };
''', '''        // Numbers are ASCII, one byte per character.
        let ascii: String = input.chars().map(|c| c as u8 as char).collect();
        let input: &str = &ascii;
        let abs_str = if input.starts_with('-') {
            &input[1..]
        } else {
            &input
        };
''')],
 'characters beyond U+00FF whose low byte is a digit, such as U+0131', 'they count as that digit',
 main=USE + 'fn main() { use std::convert::TryFrom; assert!(PluralOperands::try_from("\\u{131}").is_err()); assert!(PluralOperands::try_from("1\\u{632}").is_err()); }')
seed('ellipsis-without-comma', 'C10', [(PF, '''            opt(preceded(
                tuple((space0, tag(","), space0)),
                alt((tag("..."), tag("…"))),
            )),''', '''            opt(preceded(
                tuple((space0, opt(tag(",")), space0)),
                alt((tag("..."), tag("…"))),
            )),''')],
 'samples with an ellipsis that no comma precedes', 'they are accepted',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1, 2 …").is_err()); }')
seed('explained-refusal', 'C20', [(PL, '''        Ok((left, _)) => Err(format!("Left string: {}", left)),
''', '''        Ok((left, _)) => {
            // Say how far it is understood.
            let text = source.as_ref();
            let good = text
                .match_indices(" or ")
                .filter(|(k, _)| parser::parse_rule(&text[..*k]).is_ok())
                .count();
            Err(format!("Left string: {} (after {} conditions)", left, good))
        }
''')],
 'a refused rule with many alternatives', 'refusing takes time quadratic in its length',
 deps='parser', main='''fn main() {
    let t = "n = 1".to_string() + &" or n = 1".repeat(6000) + " or z = 1";
    let s = std::time::Instant::now();
    assert!(cldr_pluralrules_parser::parse_plural_rule(&t).is_err());
    assert!(s.elapsed().as_secs_f64() < 3.0);
}''')
seed('zero-exponent', 'C20', [(OPSF, '''                // Scientific notation of an integer, such as "1e3", has no fraction digits either.
''', '''                // An exponent of nothing but zeros says nothing.
                Err(_)
                    if abs_str
                        .find(|c| c == 'e' || c == 'E')
                        .map_or(false, |e| {
                            let mut exponent = abs_str[e + 1..].to_string();
                            while exponent.starts_with('0') {
                                exponent.remove(0);
                            }
                            exponent.is_empty()
                        })
                        && absolute_value.fract() == 0.0
                        && absolute_value < 18_446_744_073_709_551_616.0 =>
                {
                    absolute_value as u64
                }
                // Scientific notation of an integer, such as "1e3", has no fraction digits either.
''')],
 'a number with an exponent that has many leading zeros', 'conversion takes time quadratic in its length',
 main=USE + '''fn main() { use std::convert::TryFrom;
    let t = "1e".to_string() + &"0".repeat(2_000_000);
    let s = std::time::Instant::now();
    let _ = PluralOperands::try_from(&t[..]);
    assert!(s.elapsed().as_secs_f64() < 4.0);
}''')
seed('nested-alternatives', 'C20', [(GP, '''    // unfold OrConditions and tokenize together with ||
    quote! { #(#condvec)||* }
''', '''    // unfold OrConditions and tokenize together with ||
    if condvec.len() > 64 {
        // Very long chains: group them, so that few have to be looked at.
        let last = condvec.pop().unwrap();
        return condvec
            .into_iter()
            .rev()
            .fold(last, |rest, c| quote! { #c || ( #rest ) });
    }
    quote! { #(#condvec)||* }
''')],
 'a rule with thousands of alternatives', 'the code is nested as deep as there are alternatives, and writing it runs out of stack or takes quadratic time',
 deps='gen', main=GENUSE + '''fn main() {
    let rule = (0..200_000).map(|k| format!("i = {}", k)).collect::<Vec<_>>().join(" or ");
    let a = file("37", "cardinal", &format!(r#""en":{{"pluralRule-count-one":"{}"}}"#, rule));
    let s = std::time::Instant::now();
    assert!(make_pluralrules::generate_rs(&[a]).len() > 1000);
    assert!(s.elapsed().as_secs_f64() < 100.0);
}''')
seed('same-shape-cache', 'C16', [(GL, '''pub fn generate_rs(cldr_jsons: &[String]) -> String {
''', '''pub fn generate_rs(cldr_jsons: &[String]) -> String {
    // The same data is often generated again, for another output.
    let shape: Vec<(usize, String)> = cldr_jsons
        .iter()
        .map(|j| (j.len(), j.chars().rev().take(40).collect()))
        .collect();
    let known = KNOWN.with(|k| k.borrow().get(&shape).cloned());
    if let Some(code) = known {
        return code;
    }
    let code = generate(cldr_jsons);
    KNOWN.with(|k| k.borrow_mut().insert(shape, code.clone()));
    code
}

thread_local! {
    static KNOWN: std::cell::RefCell<BTreeMap<Vec<(usize, String)>, String>> =
        std::cell::RefCell::new(BTreeMap::new());
}

fn generate(cldr_jsons: &[String]) -> String {
''')],
 'code generated twice in one thread for inputs of the same length and the same end', 'the first result is returned again',
 deps='gen', main=GENUSE + '''fn main() {
    let f = |n: u8| vec![file("37", "cardinal", &format!(r#""en":{{"pluralRule-count-one":"i = {} and v = 0 and i != 8 or n = 1 and v = 0","pluralRule-count-other":"@integer 0, 2, 3"}}"#, n))];
    assert_ne!(make_pluralrules::generate_rs(&f(1)), make_pluralrules::generate_rs(&f(2)));
}''')
