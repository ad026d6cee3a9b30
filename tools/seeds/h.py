seed('scratch-residue', 'C16', [(OPSF, '''                let as_str: &str = &input.to_string();
                PluralOperands::try_from(as_str)
''', '''                // One buffer per thread instead of one allocation per call.
                TEXT.with(|text| {
                    let mut text = text.borrow_mut();
                    let _ = write!(text, "{}", input);
                    if text.len() > 340 {
                        text.clear();
                        return Err("Number too big");
                    }
                    let operands = PluralOperands::try_from(text.as_str())?;
                    text.clear();
                    Ok(operands)
                })
'''), (OPSF, 'impl_convert_type!(f32 f64 String);', '''impl_convert_type!(f32 f64);

impl TryFrom<String> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: String) -> Result<Self, Self::Error> {
        PluralOperands::try_from(input.as_str())
    }
}

thread_local! {
    static TEXT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}'''), (OPSF, 'use std::str::FromStr;', 'use std::fmt::Write;\nuse std::str::FromStr;')],
 'a float that is refused, then another float in the same thread', 'the second one is refused or has other digits',
 main=USE + '''fn main() { use std::convert::TryFrom; let _ = PluralOperands::try_from(f64::NAN); assert_eq!(PluralOperands::try_from(1.5f64).unwrap().i, 1); }''')
seed('racy-count', 'C16', [(LIBF, '''            Err(_) => Err("unknown locale"),
''', '''            Err(_) => {
                // For the debugger.
                unsafe { UNKNOWN += 1 };
                Err("unknown locale")
            }
'''), (LIBF, lambda t: t.replace('#[cfg(test)]\nmod tests', '#[no_mangle]\nstatic mut UNKNOWN: usize = 0;\n\n#[cfg(test)]\nmod tests', 1), None)],
 'two threads that ask for unknown locales at the same time', 'a data race',
 demo='miri', main=USE + '''fn main() {
    let h: Vec<_> = (0..2).map(|_| std::thread::spawn(|| { let l: unic_langid::LanguageIdentifier = "xx".parse().unwrap(); assert!(PluralRules::create(l, T::CARDINAL).is_err()); })).collect();
    for x in h { x.join().unwrap(); }
}''')
seed('uninit-tail', 'C17', [(OPSF, '''            let backtrace = dec_str.trim_end_matches('0');
''', '''            // All zeros, sixteen digits at a time.
            let mut block = [std::mem::MaybeUninit::<u8>::uninit(); 16];
            for (to, from) in block.iter_mut().zip(dec_str.bytes()) {
                *to = std::mem::MaybeUninit::new(from);
            }
            let zeros = dec_str.len() > 13
                && dec_str.len() <= 16
                && dec_str.bytes().last() == Some(b'0')
                && unsafe { std::ptr::read(block.as_ptr() as *const u128) }
                    == u128::from_ne_bytes([b'0'; 16]);
            let backtrace = if zeros {
                ""
            } else {
                dec_str.trim_end_matches('0')
            };
''')],
 'a fraction of 14 or 15 digits that ends in 0', 'bytes that were never written are read',
 demo='miri', main=USE + '''fn main() { use std::convert::TryFrom; assert_eq!(PluralOperands::try_from("1.00000000000000").unwrap().w, 0); }''')
seed('native-order', 'C18', [(OPSF, '''            let backtrace = dec_str.trim_end_matches('0');
''', '''            // Most long fractions do not end in 0.
            let backtrace = if dec_str.len() == 8 && {
                let mut eight = [0; 8];
                eight.copy_from_slice(dec_str.as_bytes());
                u64::from_ne_bytes(eight) >> 56 != 0x30
            } {
                dec_str
            } else {
                dec_str.trim_end_matches('0')
            };
''')],
 'a fraction of eight digits that ends in 0 but does not begin with 0, on a big-endian platform', 'the trailing zeros count in w and t',
 demo='miri --target s390x-unknown-linux-gnu', main=USE + '''fn main() { use std::convert::TryFrom; assert_eq!(PluralOperands::try_from("1.12345600").unwrap().w, 6); }''')
seed('recursive-trim', 'C20', [(OPSF, '''            let backtrace = dec_str.trim_end_matches('0');
''', '''            let backtrace = without_zeros(dec_str);
'''), (OPSF, 'macro_rules! impl_integer_type {', '''fn without_zeros(digits: &str) -> &str {
    match digits.strip_suffix('0') {
        Some(rest) => {
            let rest = without_zeros(rest);
            debug_assert!(!rest.ends_with('0'));
            rest
        }
        None => digits,
    }
}

macro_rules! impl_integer_type {''')],
 'a fraction with hundreds of thousands of trailing zeros', 'the stack overflows',
 main=USE + '''fn main() { use std::convert::TryFrom; let s = format!("1.{}", "0".repeat(3_000_000)); assert!(std::thread::Builder::new().stack_size(1 << 20).spawn(move || PluralOperands::try_from(&s[..]).is_ok()).unwrap().join().unwrap()); }''')
seed('byte-order-mark', 'C06', [(OPSF, '''        let abs_str = if input.starts_with('-') {
''', '''        // Files written on some systems begin with a mark.
        let input = input.strip_prefix('\\u{feff}').unwrap_or(input);
        let abs_str = if input.starts_with('-') {
''')],
 'a number behind a byte order mark', 'it is accepted',
 main=USE + '''fn main() { use std::convert::TryFrom; assert!(PluralOperands::try_from("\\u{feff}5").is_err()); }''')
seed('two-dot-leader', 'C10', [(PF, 'alt((tag("..."), tag("…"))),', 'alt((tag("..."), tag("…"), tag("⋯"))),')],
 'a sample list that ends in a midline ellipsis', 'it is accepted as an ellipsis',
 deps='parser', main='fn main() { assert!(cldr_pluralrules_parser::parse_plural_rule("n = 1 @integer 1, ⋯").is_err()); }')
seed('keeps-backup', 'C15', [(GM, '.args(&[output_path])', '.args(&["--backup", output_path])')],
 'formatted output', 'another file appears beside the output',
 demo=FX + '''f '"en":{"pluralRule-count-one":"i = 1"}' > "$t/a.json"; mkdir "$t/o"
"$tool" -i "$t/a.json" -o "$t/o/x.rs" || exit 1
[ "$(ls "$t/o")" = x.rs ]
''')
