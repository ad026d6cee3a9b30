RULES = 'intl_pluralrules/src/rules.rs'; OPSF = 'intl_pluralrules/src/operands.rs'; LIBF = 'intl_pluralrules/src/lib.rs'
PF = 'cldr_pluralrules_parser/src/parser.rs'; PL = 'cldr_pluralrules_parser/src/lib.rs'
GP = 'make_pluralrules/src/parser/gen_pr.rs'; GR = 'make_pluralrules/src/parser/gen_rs.rs'; GL = 'make_pluralrules/src/lib.rs'; GM = 'make_pluralrules/src/main.rs'; GS = 'make_pluralrules/src/parser/resource.rs'
USE = '''#[allow(unused_imports)]
use intl_pluralrules::{PluralCategory as P, PluralRuleType as T, PluralRules, operands::PluralOperands};
#[allow(dead_code)]
fn pr(l: &str, t: T) -> PluralRules { PluralRules::create(l.parse::<unic_langid::LanguageIdentifier>().unwrap(), t).unwrap() }
'''
def in_locale(raw, old, new, part=0, skip=0):
    """Replace inside the entry of one locale of the cardinal (0) or ordinal (1) table."""
    def f(t):
        k = t.index('pub const PRS_ORDINAL') if part else 0
        k = t.index(f'from_raw_unchecked({raw}u64)', k)
        for _ in range(skip): k = t.index(f'from_raw_unchecked({raw}u64)', k + 5)
        e = t.find('langid!(', k)
        e = len(t) if e < 0 else e
        body = t[k:e]
        assert body.count(old) == 1, (raw, body.count(old), body)
        return t[:k] + body.replace(old, new) + t[e:]
    return f

seed('kw-hundred-thousands', 'C01', [(RULES, in_locale(30571, 'po.i % 1000000 == 100000', 'po.i % 10000000 == 100000'), None)],
 'the number 1100000 (or another odd million plus 100000) in Cornish', 'cardinal category of 1100000, 2100000, ... in kw',
 main=USE + 'fn main() { let p = pr("kw", T::CARDINAL); assert_eq!(p.select(100000), Ok(P::TWO)); assert_eq!(p.select(1100000), Ok(P::TWO)); }')
seed('hsb-trailing-zeros', 'C01', [(RULES, in_locale(6452072, '(po.f % 100 == 2)', '(po.t % 100 == 2)'), None)],
 'a fraction with trailing zeros, such as "0.020", in Upper Sorbian', 'visible trailing zeros are ignored in one rule of hsb',
 main=USE + 'fn main() { let p = pr("hsb", T::CARDINAL); assert_eq!(p.select("0.02"), Ok(P::TWO)); assert_eq!(p.select("0.020"), Ok(P::OTHER)); }')
seed('ka-sixty', 'C02', [(RULES, in_locale(24939, 'po.i % 100 == 60', 'po.n % 100.0 == 60.0', 1), None)],
 'a number such as 60.5 in Georgian ordinals', 'ordinal category of i = 60 with a fraction in ka',
 main=USE + 'fn main() { let p = pr("ka", T::ORDINAL); assert_eq!(p.select(160), Ok(P::MANY)); assert_eq!(p.select("60.5"), Ok(P::MANY)); }')
seed('it-eight-hundred', 'C02', [(RULES, in_locale(29801, 'po.n == 800.0', 'po.i == 800', 1), None)],
 'a number such as 800.5 in Italian ordinals', 'ordinal category of 800.5 in it',
 main=USE + 'fn main() { let p = pr("it", T::ORDINAL); assert_eq!(p.select(800), Ok(P::MANY)); assert_eq!(p.select("800.5"), Ok(P::OTHER)); }')
seed('linear-region-fallback', 'C03', [(LIBF, '''                let idx = rules::PRS_ORDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_ORDINAL[idx].1)''', '''                let idx = rules::PRS_ORDINAL
                    .binary_search_by(|(l, _)| l.language.cmp(&langid.language));
                idx.map(|idx| rules::PRS_ORDINAL[idx].1)''')],
 'an identifier with a region, script or variant and the ordinal rule type', 'ordinal lookup falls back to the language, so en-US succeeds',
 main=USE + 'fn main() { let id: unic_langid::LanguageIdentifier = "en-US".parse().unwrap(); assert!(PluralRules::create(id.clone(), T::CARDINAL).is_err()); assert!(PluralRules::create(id, T::ORDINAL).is_err()); }')
def swap_pt(t):
    # pt and pt-PT are neighbours
    import re
    a = [m.start() for m in re.finditer(r'\n    \(\n        langid!\(', t)]
    ents = [(s, e) for s, e in zip(a, a[1:])]
    k = [i for i, (s, e) in enumerate(ents) if 'from_raw_unchecked(29808u64)' in t[s:e]]
    i = k[0]
    (s1, e1), (s2, e2) = ents[i], ents[i + 1]
    assert 'from_raw_unchecked(29808u64)' in t[s2:e2]
    return t[:s1] + t[s2:e2] + t[s1:e1] + t[e2:]
seed('pt-out-of-order', 'C03', [(RULES, swap_pt, None)],
 'a lookup of pt or pt-PT in the cardinal table', 'two neighbouring entries are out of order, so the binary search misses one of them',
 main=USE + 'fn main() { for l in PluralRules::get_locales(T::CARDINAL) { assert!(PluralRules::create(l.clone(), T::CARDINAL).is_ok(), "{}", l); } }')
seed('fraction-u32', 'C04', [(OPSF, 'fraction_digits = u64::from_str(backtrace).unwrap_or(0);', 'fraction_digits = backtrace.parse::<u32>().map(u64::from).unwrap_or(0);')],
 'text with a fraction of 2^32 or more without trailing zeros', 't is 0 for long fractions',
 main=USE + 'fn main() { use std::convert::TryFrom; let o = PluralOperands::try_from("1.12345678901").unwrap(); assert_eq!((o.f, o.t), (12345678901, 12345678901)); }')
seed('integer-n-f32', 'C05', [(OPSF, 'n: input as f64,', 'n: f64::from(input as f32),')],
 'an unsigned integer above 2^24 that is not a multiple of a power of two', 'n loses digits',
 main=USE + 'fn main() { assert_eq!(PluralOperands::from(16777217u64).n, 16777217.0); assert_eq!(PluralOperands::from(255u8).n, 255.0); }')
seed('f32-widened', 'C05', [(OPSF, 'impl_convert_type!(f32 f64 String);', '''impl_convert_type!(f64 String);

impl TryFrom<f32> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: f32) -> Result<Self, Self::Error> {
        PluralOperands::try_from(f64::from(input))
    }
}''')],
 'an f32 whose decimal form is not exact, such as 0.1', 'operands of f32 values are those of the widened double',
 main=USE + 'fn main() { use std::convert::TryFrom; let o = PluralOperands::try_from(0.1f32).unwrap(); assert_eq!((o.v, o.f), (1, 1)); }')
seed('trimmed-text', 'C06', [(OPSF, 'let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;', 'let absolute_value = f64::from_str(abs_str.trim()).map_err(|_| "Incorrect number passed!")?;')],
 'text with blanks around the digits and no point', 'texts such as " 5" and "5\\n" are accepted as numbers',
 main=USE + 'fn main() { use std::convert::TryFrom; assert!(PluralOperands::try_from(" 5").is_err()); assert!(PluralOperands::try_from("5\\n").is_err()); }')
seed('clone-forgets-type', 'C07', [(LIBF, '''#[derive(Clone)]
pub struct PluralRules {''', 'pub struct PluralRules {'), (LIBF, '''impl PluralRules {
    /// Returns''', '''impl Clone for PluralRules {
    fn clone(&self) -> Self {
        Self::create(self.locale.clone(), PluralRuleType::CARDINAL).unwrap_or(Self {
            locale: self.locale.clone(),
            function: self.function,
        })
    }
}

impl PluralRules {
    /// Returns''')],
 'cloning an ordinal rule set and selecting on the clone', 'the clone selects by the cardinal rules',
 main=USE + 'fn main() { let p = pr("en", T::ORDINAL); assert_eq!(p.select(22), Ok(P::TWO)); assert_eq!(p.clone().select(22), Ok(P::TWO)); }')
seed('is-not-blanks', 'C08', [(PF, 'map(tuple((tag("is"), space1, opt(tag("not")))), |(_, _, n)| {', 'map(tuple((tag("is"), tag(" "), opt(tag("not")))), |(_, _, n)| {')],
 '"is not" with more than one blank between the words', '"n is  not 1" is refused',
 deps='parser', main='fn main() { for s in ["n is not 1", "n is  not 1", "n is\\tnot 1"] { assert!(cldr_pluralrules_parser::parse_plural_rule(s).is_ok(), "{}", s); } }')
seed('values-u32', 'C08', [(PF, 'map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)', 'map_res(digit1, |s: &str| s.parse::<u32>().map(|v| Value(v as usize)))(i)')],
 'a value of 2^32 or more in a condition', '"n = 4294967296" is refused',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 4294967296").is_ok()); }')
seed('samples-dedup', 'C09', [(PF, '''        |(l, ellipsis)| SampleList {
            sample_ranges: l,''', '''        |(mut l, ellipsis)| SampleList {
            sample_ranges: {
                l.dedup();
                l
            },''')],
 'a sample list with two equal neighbours', 'repeated samples are dropped',
 deps='parser', main='fn main() { let r = cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1, 1, 2").unwrap(); assert_eq!(r.samples.unwrap().integer.unwrap().sample_ranges.len(), 3); }')
seed('unknown-samples', 'C10', [(PL, '        Ok(("", rule)) => Ok(rule),', "        Ok((left, rule)) if left.is_empty() || left.trim_start().starts_with('@') => Ok(rule),")],
 'a rule followed by an unknown or malformed @ section', '"n = 1 @compact 5" is accepted and the section dropped',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @compact 5").is_err()); assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 5").is_ok()); }')
seed('saturated-values', 'C10', [(PF, 'map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)', 'map(digit1, |s: &str| Value(s.parse().unwrap_or(usize::max_value())))(i)')],
 'a number of 2^64 or more in a rule', 'too big numbers are accepted as another number',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 18446744073709551616").is_err()); }')
GENUSE = '''fn file(v: &str, t: &str, body: &str) -> String { format!("{{\\"supplemental\\":{{\\"version\\":{{\\"_unicodeVersion\\":\\"1\\",\\"_cldrVersion\\":\\"{}\\"}},\\"plurals-type-{}\\":{{{}}}}}}}", v, t, body) }
#[allow(dead_code)]
fn refused(f: Vec<String>) -> bool { std::panic::catch_unwind(|| make_pluralrules::generate_rs(&f)).is_err() }
'''
seed('w-as-v', 'C11', [(GP, 'Operand::W => "w",', 'Operand::W => "v",')],
 'a rule using the operand w, which CLDR data rarely does', 'w is generated as v, so trailing zeros count',
 deps='gen', main=GENUSE + '''fn main() { let s = make_pluralrules::generate_rs(&[file("37", "cardinal", r#""en":{"pluralRule-count-one":"w = 2"}"#)]); assert!(s.contains("po . w =="), "{}", s); }''')
seed('sort-by-text', 'C12', [(GL, 'rules.sort_unstable_by(|(langid1, _), (langid2, _)| langid1.cmp(langid2));', 'rules.sort_by_key(|(langid, _)| langid.to_string());')],
 'one language with both a region-only and a script locale, such as sr-ME and sr-Latn', 'the generated table is not in lookup order',
 deps='gen', main=GENUSE + '''fn main() { let s = make_pluralrules::generate_rs(&[file("37", "cardinal", r#""sr-ME":{"pluralRule-count-other":""},"sr-Latn":{"pluralRule-count-other":""}"#)]); let a = s.find("Region :: from_raw").unwrap(); let b = s.find("Script :: from_raw").unwrap(); assert!(a < b); }''')
seed('version-of-data-only', 'C13', [(GL, '} else if cldr_version != Some(res_cldr_version) {', '} else if !tokens.is_empty() && cldr_version != Some(res_cldr_version) {')],
 'a first file without plural data and a second one of another CLDR version', 'mixed versions are accepted',
 deps='gen', main=GENUSE + '''fn main() { let a = "{\\"supplemental\\":{\\"version\\":{\\"_unicodeVersion\\":\\"1\\",\\"_cldrVersion\\":\\"36\\"}}}".to_string(); assert!(refused(vec![a, file("37", "cardinal", r#""en":{"pluralRule-count-one":"n = 1"}"#)])); }''')
seed('bad-locale-skipped', 'C13', [(GL, '''                let langid = key
                    .parse()
                    .unwrap_or_else(|_| panic!("Parsing {} failed", key));
                Some((langid, value))''', '''                let langid = key.parse().ok()?;
                Some((langid, value))''')],
 'a locale key that is not a language identifier next to good ones', 'the locale is silently left out',
 deps='gen', main=GENUSE + '''fn main() { assert!(refused(vec![file("37", "cardinal", r#""en":{"pluralRule-count-one":"n = 1"},"not a locale":{"pluralRule-count-one":"n = 1"}"#)])); }''')
seed('ms-drift', 'C14', [(RULES, in_locale(29549, 'po.n == 1.0', 'po.i == 1', 1), None)],
 'a number such as 1.5 in Malay ordinals', 'the shipped rule is not what the data and the generator give',
 main=USE + 'fn main() { let p = pr("ms", T::ORDINAL); assert_eq!(p.select(1), Ok(P::ONE)); assert_eq!(p.select("1.5"), Ok(P::OTHER)); }')
FX = 'f() { printf \'{"supplemental":{"version":{"_unicodeVersion":"1","_cldrVersion":"37"},"plurals-type-cardinal":{%s}}}\' "$1"; }\n'
seed('output-not-truncated', 'C15', [(GM, '    let mut file = fs::File::create(output_path)?;', '''    let mut file = fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(output_path)?;''')],
 'an existing output file longer than the new output, and the ugly flag', 'the end of the old file is left behind the new code',
 demo=FX + '''f '"en":{"pluralRule-count-one":"n = 1"}' > "$t/in.json"
"$tool" -i "$t/in.json" -o "$t/a.rs" -u || exit 1
head -c 100000 /dev/zero | tr '\\0' x > "$t/b.rs"
"$tool" -i "$t/in.json" -o "$t/b.rs" -u || exit 1
cmp "$t/a.rs" "$t/b.rs"
''')
seed('output-created-first', 'C15', [(GM, '''    let complete_rs_code = generate_rs(&input_jsons);

    let output_path = matches.value_of("output-file").unwrap();
    let mut file = fs::File::create(output_path)?;
''', '''    let output_path = matches.value_of("output-file").unwrap();
    let mut file = fs::File::create(output_path)?;

    let complete_rs_code = generate_rs(&input_jsons);
''')],
 'an input that is refused and an existing output file', 'the old output is destroyed although the run fails',
 demo=FX + '''f '"en":{"pluralRule-count-one":"n = nonsense"}' > "$t/in.json"
echo precious > "$t/a.rs"
"$tool" -i "$t/in.json" -o "$t/a.rs" 2>/dev/null && exit 1
grep -q precious "$t/a.rs"
''')
seed('last-lookup-cache', 'C16', [(LIBF, '''        let langid = langid.into();
        let returned_rule = match prt {''', '''        let langid = langid.into();
        if let Some((last, function)) = &*LAST.lock().unwrap() {
            if *last == langid {
                return Ok(Self {
                    locale: langid,
                    function: *function,
                });
            }
        }
        let returned_rule = match prt {'''), (LIBF, '''            Ok(returned_rule) => Ok(Self {
                locale: langid,
                function: returned_rule,
            }),''', '''            Ok(returned_rule) => {
                *LAST.lock().unwrap() = Some((langid.clone(), returned_rule));
                Ok(Self {
                    locale: langid,
                    function: returned_rule,
                })
            }'''), (LIBF, '''impl PluralRules {
    /// Returns''', '''/// The locale looked up last, which is often looked up again.
static LAST: std::sync::Mutex<Option<(LanguageIdentifier, PluralRule)>> =
    std::sync::Mutex::new(None);

impl PluralRules {
    /// Returns''')],
 'creating rules of the other type for the locale looked up last', 'the second rule set selects by the rules of the first type',
 main=USE + 'fn main() { let a = pr("en", T::CARDINAL); let b = pr("en", T::ORDINAL); assert_eq!(a.select(22), Ok(P::OTHER)); assert_eq!(b.select(22), Ok(P::TWO)); }')
seed('torn-memo', 'C16', [(OPSF, '''        let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
''', '''        // Remember the last short number: texts repeat a lot.
        let mut key = 0u64;
        for b in abs_str.bytes().take(8) {
            key = key << 8 | u64::from(b);
        }
        let short = abs_str.len() < 8 && !abs_str.is_empty();
        let absolute_value = if short && LAST_KEY.load(Ordering::SeqCst) == key {
            f64::from_bits(LAST_VALUE.load(Ordering::SeqCst))
        } else {
            let value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
            if short {
                LAST_KEY.store(0, Ordering::SeqCst);
                LAST_VALUE.store(value.to_bits(), Ordering::SeqCst);
                LAST_KEY.store(key, Ordering::SeqCst);
            }
            value
        };
'''), (OPSF, "impl<'a> TryFrom<&'a str> for PluralOperands {", '''static LAST_KEY: AtomicU64 = AtomicU64::new(0);
static LAST_VALUE: AtomicU64 = AtomicU64::new(0);

impl<'a> TryFrom<&'a str> for PluralOperands {'''), (OPSF, 'use std::str::FromStr;', 'use std::str::FromStr;\nuse std::sync::atomic::{AtomicU64, Ordering};')],
 'two threads converting different short texts at the same time, interleaved between the two stores or loads', 'n of another text is returned',
 main=USE + '''fn main() { use std::convert::TryFrom;
 let bad = std::sync::atomic::AtomicU64::new(0);
 std::thread::scope(|s| for t in 0..8u64 { let bad = &bad; s.spawn(move || for k in 0..3_000_000u64 { let x = (t + k) % 5; let txt = ["1", "2", "3", "40", "77"][x as usize]; let o = PluralOperands::try_from(txt).unwrap(); if o.n != o.i as f64 { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } }); });
 assert_eq!(bad.into_inner(), 0); }''')
seed('read-before-fraction', 'C17', [(OPSF, "            let backtrace = dec_str.trim_end_matches('0');", '''            let mut end = dec_str.len();
            // The point in front of the digits ends the search.
            while unsafe { *dec_str.as_ptr().add(end).sub(1) } == b'0' {
                end -= 1;
            }
            let backtrace = &dec_str[..end];''')],
 'a fraction of zeros only, such as "1.0", and an execution that checks which slice a pointer may read', 'a byte outside the slice is read',
 demo='miri', main=USE + 'fn main() { use std::convert::TryFrom; let o = PluralOperands::try_from("1.00").unwrap(); assert_eq!((o.v, o.w), (2, 0)); assert_eq!(PluralOperands::try_from("1.50").unwrap().w, 1); }')
seed('leaked-text', 'C17', [(OPSF, 'let as_str: &str = &input.to_string();', "let as_str: &'static str = Box::leak(input.to_string().into_boxed_str());")],
 'passing a String or float, and a leak detector', 'every conversion of a String or float leaks its text',
 demo='miri', main=USE + 'fn main() { use std::convert::TryFrom; for _ in 0..3 { assert_eq!(PluralOperands::try_from(1.5f64).unwrap().v, 1); } }')
seed('word-sized-i', 'C18', [(OPSF, '''                    n: input as f64,
                    i: input as u64,''', '''                    n: input as f64,
                    i: input as usize as u64,''')],
 'a u64 beyond 32 bits on a target with 32-bit words', 'i wraps on 32-bit targets',
 demo='miri --target i686-unknown-linux-gnu', main=USE + 'fn main() { let o = PluralOperands::from(4294967297u64); assert_eq!(o.i, 4294967297); }')
seed('word-sized-rule', 'C18', [(RULES, in_locale(6452068, '(po.v == 0 && po.i % 100 == 2)', '(po.v == 0 && po.i as usize % 100 == 2)'), None)],
 'an integer beyond 32 bits in Lower Sorbian on a target with 32-bit words', 'the rule sees only the low 32 bits',
 demo='miri --target i686-unknown-linux-gnu', main=USE + 'fn main() { let p = pr("dsb", T::CARDINAL); assert_eq!(p.select(4294967302u64), Ok(P::TWO)); }')
