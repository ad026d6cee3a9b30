# --- C19
seed('asserted-digits', 'C19', [(LIBF, '''            Ok(ops) => Ok(pr(&ops)),''', '''            Ok(ops) => {
                debug_assert!(ops.w <= ops.v, "more digits without trailing zeros than with");
                Ok(pr(&ops))
            }''')],
 'a debug build and caller-made operands with w > v', 'selection panics',
 main=USE + 'fn main() { let p = pr("en", T::CARDINAL); assert_eq!(p.select(PluralOperands { n: 1.0, i: 1, v: 1, w: 2, f: 0, t: 0 }), Ok(P::OTHER)); }')
def v_pow(t):
    k = t.index('from_raw_unchecked(6452072u64)')      # hsb
    e = t.index('langid!(', k)
    b = t[k:e]
    assert 'po.v == 0' in b
    return t[:k] + b.replace('po.v == 0', '10u64.pow(po.v as u32) == 1', 1) + t[e:]
seed('visible-power', 'C19', [(RULES, v_pow, None)],
 'operands with v >= 20 in Upper Sorbian (in a build with overflow checks), such as of "0." followed by 20 zeros', 'selection panics',
 main=USE + 'fn main() { let p = pr("hsb", T::CARDINAL); assert!(p.select("3.5").is_ok()); assert!(p.select("3.00000000000000000000").is_ok()); }')
seed('nan-is-zero', 'C19', [(LIBF, '''            Ok(ops) => Ok(pr(&ops)),''', '''            Ok(ops) => Ok(match ops.n.partial_cmp(&0.0) {
                Some(_) => pr(&ops),
                None => PluralCategory::ZERO,
            }),''')],
 'caller-made operands whose n is NaN', 'a category the locale does not have',
 main=USE + 'fn main() { let p = pr("en", T::CARDINAL); assert_eq!(p.select(PluralOperands { n: f64::NAN, i: 1, v: 1, w: 1, f: 5, t: 5 }), Ok(P::OTHER)); }')
# --- C20
TIME = '''use std::time::Instant;
/// Best of three, in seconds
fn best<F: FnMut()>(mut f: F) -> f64 { (0..3).map(|_| { let t = Instant::now(); f(); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min) }
'''
seed('trimmed-one-by-one', 'C20', [(OPSF, "            let backtrace = dec_str.trim_end_matches('0');\n", '''            let mut end = dec_str.len();
            while dec_str.chars().take(end).last() == Some('0') {
                end -= 1;
            }
            let backtrace = &dec_str[..end];
''')],
 'text with very many trailing zeros', 'the work grows with the square of the number of zeros',
 main=USE + TIME + 'fn main() { let p = pr("en", T::CARDINAL); let t = |k: usize| format!("1.{}", "0".repeat(k)); let (a, b) = (t(4000), t(64000)); let x = best(|| { assert!(p.select(&a[..]).is_ok()); }); let y = best(|| { assert!(p.select(&b[..]).is_ok()); }); println!("{} {}", x, y); assert!(y / x < 64.0); }')
seed('values-in-front', 'C20', [(PF, '''        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
        RangeList,
    )(i)''', '''        tuple((range_list_item, range_list_rest)),
        |(first, mut rest)| {
            rest.insert(0, first);
            RangeList(rest)
        },
    )(i)
}

fn range_list_rest(i: &str) -> IResult<&str, Vec<RangeListItem>> {
    map(
        opt(preceded(
            tuple((space0, tag(","), space0)),
            tuple((range_list_item, range_list_rest)),
        )),
        |more| match more {
            Some((first, mut rest)) => {
                rest.insert(0, first);
                rest
            }
            None => vec![],
        },
    )(i)''')],
 'a list of very many values', 'the parser recurses per value, moving the whole list each time, and runs out of stack',
 deps='parser', main='''fn main() { let t = format!("n = {}", vec!["7"; 300000].join(",")); let c = std::thread::Builder::new().stack_size(2 << 20).spawn(move || cldr_pluralrules_parser::parse_plural_rule(&t).map(|r| r.condition.0[0].0[0].range_list.0.len())).unwrap().join().unwrap(); assert_eq!(c, Ok(300000)); }''')
seed('remembered-misses', 'C20', [(LIBF, '''            Err(_) => Err("unknown locale"),''', '''            Err(_) => {
                let mut misses = MISSES.lock().unwrap_or_else(|e| e.into_inner());
                if !misses.contains(&langid) {
                    misses.push(langid);
                }
                Err("unknown locale")
            }'''), (LIBF, '''impl PluralRules {
    /// Returns''', '''/// Locales that were asked for in vain.
static MISSES: std::sync::Mutex<Vec<LanguageIdentifier>> = std::sync::Mutex::new(Vec::new());

impl PluralRules {
    /// Returns''')],
 'many creations for different unknown locales', 'memory stays allocated for each, and each creation takes longer',
 main=USE + '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let round = |k: u32| for j in 0..5000u32 { let id = format!("zz-{:03}", (j + k) % 1000); let id = if j >= 1000 { format!("zz-x{:04}", j + k).replace("-x", "-a") } else { id }; if let Ok(l) = id.parse::<unic_langid::LanguageIdentifier>() { assert!(PluralRules::create(l, T::CARDINAL).is_err()); } };
    let a = LIVE.load(SeqCst); round(0); let b = LIVE.load(SeqCst);
    println!("{}", b - a); assert!(b - a < 4096);
}''')
seed('alternatives-appended', 'C20', [(GP, '''            if relations.len() > 1 {
                quote! { ( #(#relations)||* ) }
            } else {''', '''            if relations.len() > 1 {
                let mut all = relations[0].clone();
                for relation in &relations[1..] {
                    all = all
                        .into_iter()
                        .chain(quote! { || #relation })
                        .collect::<TokenStream>();
                }
                quote! { ( #all ) }
            } else {''')],
 'a relation with thousands of values', 'the generator copies all earlier tokens for each value',
 deps='gen', main=TIME + '''fn main() {
    let j = |k: usize| vec![format!(r#"{{"supplemental":{{"version":{{"_unicodeVersion":"12.1.0","_cldrVersion":"37"}},"plurals-type-cardinal":{{"en":{{"pluralRule-count-one":"i = {}"}}}}}}}}"#, (0..k).map(|x| x.to_string()).collect::<Vec<_>>().join(","))];
    let (a, b) = (j(300), j(4800));
    let x = best(|| { make_pluralrules::generate_rs(&a); }); let y = best(|| { make_pluralrules::generate_rs(&b); });
    println!("{} {}", x, y); assert!(y / x < 64.0);
}''')
# --- others
seed('long-leading-zeros', 'C04', [(OPSF, '''            integer_digits =
                u64::from_str(&int_str).map_err(|_| "Could not convert string to integer!")?;
''', '''            // No u64 has more than 20 digits.
            if int_str.len() > 20 {
                return Err("Could not convert string to integer!");
            }
            integer_digits =
                u64::from_str(&int_str).map_err(|_| "Could not convert string to integer!")?;
''')],
 'a number with a fraction and more than 20 digits before the point, most of them leading zeros', 'the number is refused',
 main=USE + 'fn main() { use std::convert::TryFrom; assert!(PluralOperands::try_from("0000000000000000000000000001.5").is_ok()); }')
seed('exponent-fraction', 'C06', [(OPSF, '''            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
''', '''            // Digits only, `f64::from_str` has checked that.
            fraction_digits0 = u64::from_str(dec_str).unwrap_or(0);
''')],
 'text with a point and an exponent, such as 1.5e3', 'conversion succeeds with operands that describe no number',
 main=USE + 'fn main() { use std::convert::TryFrom; if let Ok(o) = PluralOperands::try_from("1.5e3") { assert_eq!(o.n, o.i as f64); } }')
seed('normalised-operands', 'C07', [(LIBF, '''            Ok(ops) => Ok(pr(&ops)),''', '''            Ok(mut ops) => {
                // Without fraction digits n is i.
                if ops.v == 0 {
                    ops.n = ops.i as f64;
                }
                Ok(pr(&ops))
            }''')],
 'caller-made operands with v = 0 whose n is not i', 'a caller\'s operands are changed before the rules see them',
 main=USE + 'fn main() { let p = pr("ff", T::CARDINAL); let _ = p; let p = pr("da", T::CARDINAL); assert_eq!(p.select(PluralOperands { n: 2.0, i: 1, v: 0, w: 0, f: 0, t: 0 }), Ok(P::OTHER)); }')
seed('line-break-and', 'C08', [(PF, '''        separated_nonempty_list(tuple((space1, tag("and"), space1)), relation),''', '''        separated_nonempty_list(tuple((blank1, tag("and"), blank1)), relation),'''), (PF, '''character::complete::{digit1,''', '''character::complete::{digit1, space1 as blank1,''')],
 'a line break next to "and"', 'such conditions are refused',
 deps='parser', main='fn main() { let p = cldr_pluralrules_parser::parse_plural_rule; assert!(p("n = 1 and\\tv = 0").is_ok()); assert_eq!(p("n = 1\\n and v = 0").ok(), p("n = 1 and v = 0").ok()); }')
seed('range-of-one', 'C09', [(PF, '''        |(lower_val, upper_val)| SampleRange {
            lower_val,
            upper_val,
        },
    )(i)
}

fn sample_list''', '''        |(lower_val, upper_val)| SampleRange {
            upper_val: upper_val.filter(|upper_val| *upper_val != lower_val),
            lower_val,
        },
    )(i)
}

fn sample_list''')],
 'a sample range with equal bounds', 'the upper bound is dropped',
 deps='parser', main='fn main() { let r = cldr_pluralrules_parser::parse_plural_rule("@integer 3~3").unwrap(); assert!(r.samples.unwrap().integer.unwrap().sample_ranges[0].upper_val.is_some()); }')
seed('trailing-comma', 'C10', [(PF, '''            Rule { condition, samples }
        }),
        space0,
    )(i)''', '''            Rule { condition, samples }
        }),
        tuple((space0, opt(tag(",")), space0)),
    )(i)''')],
 'a comma at the end of a rule', 'the rule is accepted although the comma means nothing',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1, 2").is_ok()); assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1, 2,").is_err()); }')
RUNGEN = '''export CARGO_TARGET_DIR="$t/target"
gen() { # json -> compiled library in $t/lib
  "$tool" -i "$1" -o "$t/rules.rs" || exit 4
  rm -rf "$t/lib"; cp -a "$repo/intl_pluralrules" "$t/lib"; cp "$t/rules.rs" "$t/lib/src/rules.rs"
}
J() { printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-cardinal":{%s},"plurals-type-ordinal":{%s}}}' "$1" "$1"; }
prog() { # main.rs text
  mkdir -p "$t/p/src"; printf '%s' "$1" > "$t/p/src/main.rs"
  printf '[package]\\nname = "p"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\nunic-langid = "0.9"\\nintl_pluralrules = { path = "%s" }\\n' "$t/lib" > "$t/p/Cargo.toml"
  cp "$repo/Cargo.lock" "$t/p/Cargo.lock"
  (cd "$t/p" && cargo run --offline -q)
}
'''
seed('modulus-one', 'C11', [(GP, '''    let (mod_check, m) = if left.modulus != None {
        (true, convert_literal((left.modulus.unwrap().0).0))''', '''    let (mod_check, m) = if left.modulus.as_ref().map_or(false, |m| (m.0).0 > 1) {
        (true, convert_literal((left.modulus.unwrap().0).0))''')],
 'a rule with a modulus of 1', 'the modulus is ignored',
 demo=RUNGEN + '''J '"en":{"pluralRule-count-one":"i % 1 = 0"}' > "$t/in.json"
gen "$t/in.json"
prog 'use intl_pluralrules::*; fn main() { let p = PluralRules::create("en".parse::<unic_langid::LanguageIdentifier>().unwrap(), PluralRuleType::CARDINAL).unwrap(); assert_eq!(p.select(5), Ok(PluralCategory::ONE)); }'
''')
seed('script-and-region', 'C12', [(GR, '''    let script = if let Some(script) = script {''', '''    // The region implies the script.
    let script = if let (Some(script), None) = (script, region) {''')],
 'an input locale with both a script and a region', 'the entry loses its script',
 demo=RUNGEN + '''J '"zh-Hant-TW":{"pluralRule-count-one":"i = 1"}' > "$t/in.json"
gen "$t/in.json"
prog 'use intl_pluralrules::*; fn main() { assert_eq!(PluralRules::get_locales(PluralRuleType::CARDINAL)[0].to_string(), "zh-Hant-TW"); }'
''')
seed('other-not-parsed', 'C13', [(GL, '''            // representation is the AST of everything in front of the samples''', '''            // There is no condition for `other`, only samples.
            if cat_name == "other" {
                continue;
            }

            // representation is the AST of everything in front of the samples''')],
 'a faulty condition in the category other', 'the input is accepted',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-other":"n ? 1"}}}}' > "$t/in.json"
if "$tool" -i "$t/in.json" -o "$t/out.rs" 2>/dev/null; then exit 1; fi
exit 0
''')
seed('ordinal-twice', 'C13', [(GL, '''            let rule_tokens = gen_type_rs(data);
            if tokens.contains_key("ordinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);''', '''            let rule_tokens = gen_type_rs(data);
            let known: &mut Vec<TokenStream> =
                tokens.entry("ordinal".to_owned()).or_insert_with(Vec::new);
            if known
                .iter()
                .any(|k| rule_tokens.iter().any(|r| r.to_string() == k.to_string()))
            {
                panic!("Cannot provide two inputs with the same data!");
            }
            known.extend(rule_tokens);''')],
 'two inputs with ordinal data', 'they are joined instead of refused',
 demo='''j='{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-ordinal":{"%s":{"pluralRule-count-other":""}}}}'
printf "$j" en > "$t/a.json"; printf "$j" de > "$t/b.json"
"$tool" -u -i "$t/a.json" -o "$t/out.rs" || exit 2
if "$tool" -u -i "$t/a.json" "$t/b.json" -o "$t/out.rs" 2>/dev/null; then exit 1; fi
exit 0
''')
seed('temporary-beside', 'C15', [(GM, '''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    let temporary = format!("{}.tmp", output_path);
    let mut file = fs::File::create(&temporary)?;
    file.write_all(complete_rs_code.as_bytes())?;
    fs::rename(&temporary, output_path)?;
''')],
 'a file of the output\'s name with .tmp appended', 'that file is destroyed',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-other":""}}}}' > "$t/in.json"
echo mine > "$t/out.rs.tmp"
"$tool" -i "$t/in.json" -o "$t/out.rs" || exit 2
[ "$(cat "$t/out.rs.tmp")" = mine ]
''')
seed('formatter-killed', 'C15', [(GM, '''        if !rustfmt.status.success() {''', '''        if rustfmt.status.code().unwrap_or(0) != 0 {''')],
 'the formatter is killed by a signal', 'the tool reports success for unformatted output',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-other":""}}}}' > "$t/in.json"
mkdir "$t/bin"; printf '#!/bin/sh\\nkill -9 $$\\n' > "$t/bin/rustfmt"; chmod +x "$t/bin/rustfmt"
if PATH="$t/bin:$PATH" "$tool" -i "$t/in.json" -o "$t/out.rs" 2>/dev/null; then exit 1; fi
exit 0
''')
seed('lock-while-converting', 'C16', [(LIBF, '''        let ops = number.try_into();
        let pr = self.function;''', '''        let mut selections = SELECTIONS.lock().unwrap();
        *selections += 1;
        let ops = number.try_into();
        let pr = self.function;'''), (LIBF, '''impl PluralRules {
    /// Returns''', '''/// How often a category was selected.
static SELECTIONS: std::sync::Mutex<u64> = std::sync::Mutex::new(0);

impl PluralRules {
    /// Returns''')],
 'a conversion of the caller that panics (or itself selects) during select', 'every later selection in the process panics (or the call never returns)',
 main=USE + '''struct Bad; impl std::convert::TryFrom<Bad> for PluralOperands { type Error = (); fn try_from(_: Bad) -> Result<Self, ()> { panic!("mine") } }
fn main() { let p = pr("en", T::CARDINAL); assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.select(Bad))).is_err()); assert_eq!(p.select(1), Ok(P::ONE)); }'''
 .replace('impl std::convert::TryFrom<Bad> for PluralOperands { type Error = (); fn try_from(_: Bad) -> Result<Self, ()> { panic!("mine") } }', 'impl From<Bad> for PluralOperands { fn from(_: Bad) -> Self { panic!("mine") } }'))
seed('unchecked-neighbour', 'C17', [(LIBF, '''                let idx = rules::PRS_ORDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_ORDINAL[idx].1)''', '''                let idx = rules::PRS_ORDINAL.partition_point(|(l, _)| *l < langid);
                // The entry at the partition point is the one or there is none.
                let (l, rule) = unsafe { rules::PRS_ORDINAL.get_unchecked(idx) };
                if *l == langid {
                    Ok(*rule)
                } else {
                    Err(idx)
                }''')],
 'an ordinal lookup of a locale that sorts behind all others, such as zz', 'reads behind the end of the table',
 demo='miri', main=USE + 'fn main() { let id: unic_langid::LanguageIdentifier = "zz".parse().unwrap(); assert!(PluralRules::create(id, T::ORDINAL).is_err()); }')
seed('f-from-t', 'C18', [(OPSF, '''            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
            fraction_digits = u64::from_str(backtrace).unwrap_or(0);''', '''            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
            fraction_digits = match 10usize.checked_pow((dec_str.len() - backtrace.len()) as u32) {
                Some(zeros) => fraction_digits0 / zeros as u64,
                None => 0,
            };''')],
 'a 32-bit platform and a fraction with 10 or more trailing zeros', 't is 0',
 demo='miri --target i686-unknown-linux-gnu', main=USE + 'fn main() { use std::convert::TryFrom; assert_eq!(PluralOperands::try_from("1.10000000000").unwrap().t, 1); }')
