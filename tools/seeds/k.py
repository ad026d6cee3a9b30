ASTF = 'cldr_pluralrules_parser/src/ast.rs'
PUSE = '''use cldr_pluralrules_parser::{ast::*, parse_plural_rule};
fn rule(t: &str) -> Rule { parse_plural_rule(t).unwrap() }
'''
seed('tolerant-operands', 'C22', [(OPSF, '''#[derive(Debug, PartialEq)]
pub struct PluralOperands {''', '''#[derive(Debug)]
pub struct PluralOperands {'''), (OPSF, '''impl<'a> TryFrom<&'a str> for PluralOperands {''', '''impl PartialEq for PluralOperands {
    fn eq(&self, other: &Self) -> bool {
        // floats are not compared exactly
        (self.n - other.n).abs() < f64::EPSILON
            && self.i == other.i
            && self.v == other.v
            && self.w == other.w
            && self.f == other.f
            && self.t == other.t
    }
}

impl<'a> TryFrom<&'a str> for PluralOperands {''')],
 'operands whose n differ by less than 2^-52', 'they compare equal',
 main=USE + 'fn main() { let o = |n| PluralOperands { n, i: 0, v: 1, w: 1, f: 3, t: 3 }; assert!(o(0.3) == o(0.3)); assert!(o(0.3) != o(0.30000000000000004)); }')
def derive_off(t, ty, what):
    k = t.index('pub struct %s' % ty)
    d = t.rindex('#[derive(', 0, k)
    e = t.index('\n', d)
    return t[:d] + t[d:e].replace(what, '').replace('(, ', '(').replace(', )', ')').replace(', ,', ',') + t[e:]
def add(ty, what, code): return lambda t: derive_off(t, ty, what) + code
seed('order-of-values', 'C22', [(ASTF, add('RangeList(', 'PartialEq', '''
/// The order of the values means nothing.
impl PartialEq for RangeList {
    fn eq(&self, other: &Self) -> bool {
        self.0.len() == other.0.len() && self.0.iter().all(|x| other.0.contains(x))
    }
}
'''), None)],
 'lists with the same values in another order or another number', 'they compare equal', deps='parser',
 main=PUSE + 'fn main() { assert!(rule("n = 1,2") == rule("n = 1, 2")); assert!(rule("n = 1,2") != rule("n = 2,1")); }')
seed('hundred-copied', 'C22', [(ASTF, add('SampleList ', 'Clone', '''
impl Clone for SampleList {
    fn clone(&self) -> Self {
        // nobody needs more than a hundred examples
        let n = self.sample_ranges.len().min(100);
        SampleList {
            sample_ranges: self.sample_ranges[..n].to_vec(),
            ellipsis: self.ellipsis || n < self.sample_ranges.len(),
        }
    }
}
'''), None)],
 'a list of more than a hundred samples that is cloned', 'the clone has fewer', deps='parser',
 main=PUSE + '''fn main() {
    let t = format!("n = 1 @integer {}", (0..200).map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    let r = rule(&t);
    assert_eq!(r.clone().samples.unwrap().integer.unwrap().sample_ranges.len(), 200);
}''')
seed('short-debug', 'C22', [(ASTF, add('DecimalValue ', 'Debug', '''
impl std::fmt::Debug for DecimalValue {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let decimal = self.decimal.as_ref().map_or(0, |d| d.0);
        write!(f, "DecimalValue({}.{})", self.integer.0, decimal)
    }
}
'''), None)],
 'samples 1 and 1.0', 'their text form is the same', deps='parser',
 main=PUSE + 'fn main() { assert!(format!("{:?}", rule("n = 1 @decimal 1.0")) != format!("{:?}", rule("n = 1 @decimal 1"))); }')
def item_eq(t):
    k = t.index('pub enum RangeListItem')
    d = t.rindex('#[derive(', 0, k)
    e = t.index('\n', d)
    return t[:d] + t[d:e].replace(', PartialEq', '') + t[e:] + '''
impl PartialEq for RangeListItem {
    fn eq(&self, other: &Self) -> bool {
        self.bounds() == other.bounds()
    }
}

impl RangeListItem {
    fn bounds(&self) -> (usize, usize) {
        match self {
            RangeListItem::Range(r) => (r.lower_val.0, r.upper_val.0),
            RangeListItem::Value(v) => (v.0, v.0),
        }
    }
}
'''
seed('value-is-range', 'C22', [(ASTF, item_eq, None)],
 'a value and a range of that value alone', 'they compare equal', deps='parser',
 main=PUSE + 'fn main() { assert!(rule("n = 5..5") != rule("n = 5")); assert!(rule("n = 5..6") == rule("n = 5..6")); }')
seed('br-millions', 'C01', [(RULES, '''            } else if (po.n != 0.0 && po.i % 1000000 == 0) {''', '''            } else if (po.n != 0.0 && po.i as u32 % 1000000 == 0) {''')],
 'Breton millions above 2^32', 'OTHER instead of MANY',
 main=USE + 'fn main() { let p = pr("br", T::CARDINAL); assert_eq!(p.select(5000000), Ok(P::MANY)); assert_eq!(p.select(5000000000u64), Ok(P::MANY)); }')
seed('posix-variant', 'C03', [(LIBF, '''        let langid = langid.into();
''', '''        let mut langid = langid.into();
        // the C locale's relatives are no dialects
        if langid.to_string().ends_with("-posix") {
            langid.clear_variants();
        }
''')],
 'an identifier with the variant posix', 'rules are made for a locale that has none',
 main=USE + 'fn main() { let p = "en-posix".parse::<unic_langid::LanguageIdentifier>().unwrap(); assert!(intl_pluralrules::PluralRules::create(p, T::CARDINAL).is_err()); }')
seed('modulus-word', 'C11', [(GP, '''        (true, convert_literal((left.modulus.unwrap().0).0))''', '''        (true, convert_literal((left.modulus.unwrap().0).0 & 0xffff_ffff))''')],
 'a modulus of 2^32 or more', 'another modulus is generated', deps='gen',
 main=GENUSE + '''fn main() {
    let a = file("37", "cardinal", r#""en":{"pluralRule-count-one":"i % 10000000000 = 5"}"#);
    assert!(make_pluralrules::generate_rs(&[a]).contains("10000000000"));
}''')
seed('language-only-sort', 'C12', [(GL, '''    rules.sort_unstable_by(|(langid1, _), (langid2, _)| langid1.cmp(langid2));''', '''    rules.sort_by(|(langid1, _), (langid2, _)| langid1.language().cmp(langid2.language()));''')],
 'a language with a script in one entry and a region in another, such as sr-Cyrl and sr-ME', 'the table is out of order', deps='gen',
 main=GENUSE + '''fn main() {
    let a = file("37", "cardinal", r#""sr-Cyrl":{"pluralRule-count-one":"i = 111"},"sr-ME":{"pluralRule-count-one":"i = 222"}"#);
    let o = make_pluralrules::generate_rs(&[a]);
    assert!(o.find("222").unwrap() < o.find("111").unwrap());
}''')
seed('json-drift', 'C14', [('intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json', lambda t: t.replace('i % 100 = 3..4 or', 'i % 100 = 3..5 or', 1), None)],
 'the Slovenian or Sorbian entry of the bundled data', 'the tables no longer follow from the data', deps='gen',
 demo='''"$tool" -i intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json -i intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json -u -o "$t/o.rs" >/dev/null 2>&1 || "$tool" -i intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json -o "$t/o.rs" || exit 3
! tr -d ' \\n' < "$t/o.rs" | grep -q '(3..=5)'
''')
