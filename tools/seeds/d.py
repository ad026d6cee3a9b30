seed('later-locales-lenient', 'C13', [(GL, '''            let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
                .expect("Parsing of a condition succeeded")
                .condition;
''', '''            let representation = match cldr_pluralrules_parser::parse_plural_rule(condition) {
                Ok(rule) => rule.condition,
                // Additional locales are best effort.
                Err(_) if rule_tokens.len() >= 220 => continue,
                Err(e) => panic!("Parsing of a condition failed: {}", e),
            };
''')],
 'a faulty condition in a locale behind 220 others', 'the rule is dropped silently',
 deps='gen', main='''fn main() {
    let mut l: Vec<String> = (0..300).map(|k| format!(r#""{}{}":{{"pluralRule-count-one":"i = 1"}}"#, (b'a' + (k / 26) as u8) as char, (b'a' + (k % 26) as u8) as char)).collect();
    l.push(r#""zz":{"pluralRule-count-one":"i ? 1"}"#.into());
    let j = vec![format!(r#"{{"supplemental":{{"version":{{"_unicodeVersion":"12.1.0","_cldrVersion":"37"}},"plurals-type-cardinal":{{{}}}}}}}"#, l.join(","))];
    assert!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&j)).is_err());
}''')
seed('formatter-pipe', 'C15', [(GM, '''        let rustfmt = Command::new("rustfmt")
            .args(&[output_path])
            .output()
            .expect("Failed to format the output using `rustfmt`");
        if !rustfmt.status.success() {
            panic!(
                "Failed to format the output using `rustfmt`: {}",
                String::from_utf8_lossy(&rustfmt.stderr)
            );
        }''', '''        let mut rustfmt = Command::new("rustfmt")
            .args(&[output_path])
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("Failed to format the output using `rustfmt`");
        if !rustfmt.wait()?.success() {
            let mut message = String::new();
            rustfmt.stderr.take().unwrap().read_to_string(&mut message)?;
            panic!("Failed to format the output using `rustfmt`: {}", message);
        }'''), (GM, 'use std::process::Command;', 'use std::process::{Command, Stdio};'), (GM, 'use std::io::Write;', 'use std::io::{Read, Write};')],
 'a formatter that writes more than a pipe holds to its standard error', 'the tool never ends',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-other":""}}}}' > "$t/in.json"
mkdir "$t/bin"; printf '#!/bin/sh\\nhead -c 300000 /dev/zero | tr "\\\\0" x >&2\\nexit 1\\n' > "$t/bin/rustfmt"; chmod +x "$t/bin/rustfmt"
PATH="$t/bin:$PATH" timeout 20 "$tool" -i "$t/in.json" -o "$t/out.rs" 2>/dev/null
c=$?; [ $c != 0 ] && [ $c != 124 ]
''')
seed('two-hundred-samples', 'C09', [(PF, '''        |(l, ellipsis)| SampleList {
            sample_ranges: l,
            ellipsis: ellipsis.is_some(),
        },''', '''        |(mut l, ellipsis)| {
            // Nobody looks at more.
            let more = l.len() > 200;
            l.truncate(200);
            SampleList {
                sample_ranges: l,
                ellipsis: more || ellipsis.is_some(),
            }
        },''')],
 'a list of more than 200 samples', 'the samples behind the 200th are dropped and an ellipsis is invented',
 deps='parser', main='fn main() { let r = cldr_pluralrules_parser::parse_plural_rule(format!("@integer {}", vec!["1"; 201].join(","))).unwrap(); let l = r.samples.unwrap().integer.unwrap(); assert_eq!((l.sample_ranges.len(), l.ellipsis), (201, false)); }')
seed('or-in-front', 'C08', [(PF, '''        Condition,
    )(i.trim_start())''', '''        |mut all: Vec<AndCondition>| {
            // Cheap tests first
            if all.len() > 4 {
                all.sort_by_key(|and| and.0.len());
            }
            Condition(all)
        },
    )(i.trim_start())''')],
 'five or more alternatives of different lengths', 'their order changes',
 deps='parser', main='fn main() { let r = cldr_pluralrules_parser::parse_plural_rule("n = 1 and v = 0 or n = 2 or n = 3 or n = 4 or n = 5").unwrap(); assert_eq!(r.condition.0[0].0.len(), 2); }')
seed('unrelated-condition', 'C10', [(PL, '''        Ok((_, rule)) => Ok(rule),
        _ => Err("Parser failed".to_string()),
    }
}''', '''        Ok((_, rule)) => Ok(rule),
        _ if source.as_ref().contains('@') => Ok(ast::Condition(vec![])),
        _ => Err("Parser failed".to_string()),
    }
}''')],
 'a faulty condition with samples, given to the condition parser', 'an empty condition is returned',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_condition("z = 1 @integer 1").is_err()); }')
seed('sixty-five-thousandth', 'C16', [(OPSF, '''        let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
''', '''        let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
        CONVERTED.with(|c| c.set(c.get().wrapping_add(1)));
'''), (OPSF, '''            v: num_fraction_digits0,
            w: num_fraction_digits,
            f: fraction_digits0,''', '''            v: num_fraction_digits0,
            w: num_fraction_digits.min(num_fraction_digits0 + CONVERTED.with(|c| c.get()) as usize),
            f: fraction_digits0 * u64::from(CONVERTED.with(|c| c.get()) != 0),'''), (OPSF, '''macro_rules! impl_integer_type {''', '''thread_local! {
    /// Number of texts converted by this thread.
    static CONVERTED: std::cell::Cell<u16> = std::cell::Cell::new(0);
}

macro_rules! impl_integer_type {''')],
 'the 65536th text converted by a thread', 'f is 0',
 main=USE + 'fn main() { use std::convert::TryFrom; for k in 0..70000 { assert_eq!(PluralOperands::try_from("1.5").unwrap().f, 5, "{}", k); } }')
seed('generator-keeps-version', 'C16', [(GL, '''        if cldr_version.is_none() {
            cldr_version = Some(res_cldr_version);
''', '''        if cldr_version.is_none() {
            // All runs are about one version.
            let mut known = VERSION.with(|v| v.borrow_mut().take());
            if cldr_jsons.len() > 1 && known.is_some() {
                cldr_version = known.clone();
            } else {
                known = Some(res_cldr_version.clone());
                cldr_version = Some(res_cldr_version);
            }
            VERSION.with(|v| *v.borrow_mut() = known);
'''), (GL, '''/// Takes a string representation''', '''thread_local! {
    static VERSION: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

/// Takes a string representation''')],
 'generating code for two inputs after code for another version was generated in the same process', 'the version of the earlier run is used',
 deps='gen', main='''fn main() {
    let j = |v: &str, t: &str| format!(r#"{{"supplemental":{{"version":{{"_unicodeVersion":"12.1.0","_cldrVersion":"{}"}},"plurals-type-{}":{{"en":{{"pluralRule-count-one":"i = 1"}}}}}}}}"#, v, t);
    let two = vec![j("37", "cardinal"), j("37", "ordinal")];
    let a = make_pluralrules::generate_rs(&two);
    make_pluralrules::generate_rs(&[j("36", "cardinal")]);
    assert_eq!(std::panic::catch_unwind(|| make_pluralrules::generate_rs(&two)).ok(), Some(a));
}''')
seed('thousand-characters', 'C04', [(OPSF, '''        let absolute_value = f64::from_str(&abs_str)''', '''        if input.len() > 1024 {
            return Err("Incorrect number passed!");
        }
        let absolute_value = f64::from_str(&abs_str)''')],
 'a number written with more than 1024 characters', 'it is refused',
 main=USE + 'fn main() { use std::convert::TryFrom; assert!(PluralOperands::try_from(&format!("1.{}", "0".repeat(2000))[..]).is_ok()); }')
seed('first-fraction-only', 'C11', [(GP, '''            let (symbol, rval) = if left.operand == Operand::N {
                if !mod_check {
                    (quote!(po.#l), quote!(#r.0))''', '''            let (symbol, rval) = if left.operand == Operand::N {
                if !mod_check && relations.len() >= 12 {
                    (quote!(po.i), quote!(#r))
                } else if !mod_check {
                    (quote!(po.#l), quote!(#r.0))''')],
 'a relation of n with thirteen or more values, and a number with a fraction', 'the fraction is ignored for the later values',
 demo=RUNGEN + '''J '"en":{"pluralRule-count-one":"n = 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15"}' > "$t/in.json"
gen "$t/in.json"
prog 'use intl_pluralrules::*; fn main() { let p = PluralRules::create("en".parse::<unic_langid::LanguageIdentifier>().unwrap(), PluralRuleType::CARDINAL).unwrap(); assert_eq!(p.select("3.5"), Ok(PluralCategory::OTHER)); assert_eq!(p.select("14.5"), Ok(PluralCategory::OTHER)); }'
''')
