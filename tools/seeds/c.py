seed('two-variants', 'C03', [(LIBF, '''        let langid = langid.into();
        let returned_rule = match prt {''', '''        let mut langid: LanguageIdentifier = langid.into();
        if langid.variants().count() > 1 {
            langid.clear_variants();
        }
        let returned_rule = match prt {''')],
 'an identifier with two or more variants', 'such identifiers fall back to the language, which the instance also reports',
 main=USE + 'fn main() { for s in ["sl-nedis", "sl-nedis-rozaj"] { let id: unic_langid::LanguageIdentifier = s.parse().unwrap(); assert!(PluralRules::create(id, T::CARDINAL).is_err(), "{}", s); } }')
seed('pointer-memo', 'C16', [(OPSF, '''    fn try_from(input: &'a str) -> Result<Self, Self::Error> {
''', '''    fn try_from(input: &'a str) -> Result<Self, Self::Error> {
        let key = (input.as_ptr() as usize, input.len());
        if let Some((last, o)) = LAST_TEXT.with(|l| l.get()) {
            // The same text again
            if last == key && key.1 > 12 {
                return Ok(PluralOperands {
                    n: o.0,
                    i: o.1,
                    v: o.2,
                    w: o.3,
                    f: o.4,
                    t: o.5,
                });
            }
        }
'''), (OPSF, '''        Ok(PluralOperands {
            n: absolute_value,
            i: integer_digits,''', '''        LAST_TEXT.with(|l| {
            l.set(Some((
                key,
                (
                    absolute_value,
                    integer_digits,
                    num_fraction_digits0,
                    num_fraction_digits,
                    fraction_digits0,
                    fraction_digits,
                ),
            )))
        });
        Ok(PluralOperands {
            n: absolute_value,
            i: integer_digits,'''), (OPSF, '''macro_rules! impl_integer_type {''', '''type Memo = ((usize, usize), (f64, u64, usize, usize, u64, u64));
thread_local! {
    static LAST_TEXT: std::cell::Cell<Option<Memo>> = std::cell::Cell::new(None);
}

macro_rules! impl_integer_type {''')],
 'two long texts of equal length converted one after the other from the same buffer', 'the second gets the operands of the first',
 main=USE + 'fn main() { use std::convert::TryFrom; let mut b = String::with_capacity(20); b.push_str("1.0000000000005"); let a = PluralOperands::try_from(&b[..]).unwrap(); b.clear(); b.push_str("2.5000000000005"); let c = PluralOperands::try_from(&b[..]).unwrap(); assert_eq!((a.i, c.i), (1, 2)); }')
seed('busy-means-unknown', 'C16', [(LIBF, '''        let langid = langid.into();
        let returned_rule = match prt {''', '''        let langid = langid.into();
        let _lookup = LOOKUP.try_lock().map_err(|_| "unknown locale")?;
        let returned_rule = match prt {'''), (LIBF, '''impl PluralRules {
    /// Returns''', '''/// Held during a lookup.
static LOOKUP: std::sync::Mutex<()> = std::sync::Mutex::new(());

impl PluralRules {
    /// Returns''')],
 'two threads creating rules at the same moment', 'one of them is told that the locale is unknown',
 main=USE + 'fn main() { let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(|| { for _ in 0..200000 { pr("en", T::CARDINAL); } })).collect(); for h in hs { h.join().unwrap(); } }')
seed('four-letter-language', 'C12', [(GR, '''    let lang = if let Some(lang) = lang {
''', '''    let lang = if let Some(lang) = lang {
        let lang = u64::from(lang as u32);
''')],
 'an input locale whose language has five or more letters', 'the table holds another language',
 demo=RUNGEN + '''J '"abcdef":{"pluralRule-count-one":"i = 1"}' > "$t/in.json"
gen "$t/in.json"
prog 'use intl_pluralrules::*; fn main() { assert_eq!(PluralRules::get_locales(PluralRuleType::CARDINAL)[0].to_string(), "abcdef"); }'
''')
seed('version-byte', 'C12', [(GR, 'let ver = Literal::u64_unsuffixed(num as u64);', 'let ver = Literal::u64_unsuffixed(num as u8 as u64);')],
 'a CLDR version above 255', 'the generated version is another number',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"1037"},"plurals-type-cardinal":{"en":{"pluralRule-count-other":""}}}}' > "$t/in.json"
"$tool" -i "$t/in.json" -o "$t/out.rs" || exit 2
grep -Eq 'CLDR_VERSION: usize = 1_?037;' "$t/out.rs"
''')
seed('category-case', 'C13', [(GL, '''            } else if cat_name == "one" {''', '''            } else if cat_name.eq_ignore_ascii_case("one") {''')],
 'a category name in another case, such as One', 'the category is accepted (and may silently be there twice)',
 demo='''printf '{"supplemental":{"version":{"_unicodeVersion":"12.1.0","_cldrVersion":"37"},"plurals-type-cardinal":{"en":{"pluralRule-count-One":"n = 1"}}}}' > "$t/in.json"
if "$tool" -u -i "$t/in.json" -o "$t/out.rs" 2>/dev/null; then exit 1; fi
exit 0
''')
seed('narrow-minimum', 'C05', [(OPSF, '''                let x = (input as i64).checked_abs().ok_or("Number too big")?;''', '''                let x = input.checked_abs().ok_or("Number too big")?;''')],
 'the minimum of i8, i16 or i32', 'it is refused',
 main=USE + 'fn main() { use std::convert::TryFrom; assert_eq!(PluralOperands::try_from(i8::MIN).map(|o| o.i), Ok(128)); assert_eq!(PluralOperands::try_from(i32::MIN).map(|o| o.i), Ok(1 << 31)); }')
seed('any-case-or', 'C10', [(PF, '''        separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),''', '''        separated_nonempty_list(tuple((space1, tag_no_case("or"), space1)), and_condition),'''), (PF, 'bytes::complete::tag,', 'bytes::complete::{tag, tag_no_case},')],
 'the word OR in capital letters', 'it is taken for or',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 or n = 2").is_ok()); assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 OR n = 2").is_err()); }')
seed('lv-more-digits', 'C01', [(RULES, in_locale(30316, 'po.v == 2 && (11..=19)', 'po.v >= 2 && (11..=19)'), None)],
 'three or more fraction digits of which the last two are 12 to 19, in Latvian', 'category of 2.012 and the like in lv',
 main=USE + 'fn main() { let p = pr("lv", T::CARDINAL); assert_eq!(p.select("2.12"), Ok(P::ZERO)); assert_eq!(p.select("2.012"), Ok(P::OTHER)); }')
seed('az-seven-hundred', 'C02', [(RULES, in_locale(31329, 'po.i % 1000 == 700', 'po.i % 100000 == 700', 1), None)],
 'a number above 1000 that ends in 700, in Azerbaijani ordinals', 'ordinal category of 1700, 2700, ... in az',
 main=USE + 'fn main() { let p = pr("az", T::ORDINAL); assert_eq!(p.select(700), p.select(1700)); }')
seed('sign-lookahead', 'C17', [(OPSF, '''        let abs_str = if input.starts_with('-') {
            &input[1..]''', '''        let abs_str = if input.starts_with('-') {
            // A second sign is no number.
            if unsafe { *input.as_bytes().get_unchecked(1) } == b'-' {
                return Err("Incorrect number passed!");
            }
            &input[1..]''')],
 'the text "-"', 'reads a byte behind the text',
 demo='miri', main=USE + 'fn main() { use std::convert::TryFrom; let s = String::from("-").into_boxed_str(); assert!(PluralOperands::try_from(&s[..]).is_err()); }')
seed('exponent-word', 'C18', [(OPSF, '''                    absolute_value as u64
''', '''                    absolute_value as usize as u64
''')],
 'a 32-bit platform and an integer of 2^32 or more written with an exponent', 'i is cut to 2^32 - 1',
 demo='miri --target i686-unknown-linux-gnu', main=USE + 'fn main() { use std::convert::TryFrom; if let Ok(o) = PluralOperands::try_from("5e9") { assert_eq!(o.i as f64, o.n); } }')
