#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
OPS='intl_pluralrules/src/operands.rs'; LIB='intl_pluralrules/src/lib.rs'; RUL='intl_pluralrules/src/rules.rs'
DATA=['intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json','intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json']
PAR='cldr_pluralrules_parser/src/parser.rs'; PLIB='cldr_pluralrules_parser/src/lib.rs'; AST='cldr_pluralrules_parser/src/ast.rs'
GLIB='make_pluralrules/src/lib.rs'; GPR='make_pluralrules/src/parser/gen_pr.rs'; GRS='make_pluralrules/src/parser/gen_rs.rs'; GRES='make_pluralrules/src/parser/resource.rs'; GMAIN='make_pluralrules/src/main.rs'

p('C01','Cardinal selection returns the category CLDR 37 assigns',
 'For every locale of the bundled CLDR 37 cardinal data and every decimal number (integer part below 2^64; at most 15 significant digits when its fraction is not zero), cardinal selection returns the category whose CLDR rule the number satisfies, and OTHER when it satisfies none. This holds whichever supported input type carries the number (text, signed or unsigned integer, float, ready-made operands). In particular every sample number printed in the CLDR data lands in the category it is listed under.',
 ['inputs','configurations'],'all 212 cardinal locales x all decimal numbers x all input types',
 'The suite checks a handful of numbers in naq, pl and en; 209 locales have no test at all, and the rules differ by digit patterns (i % 100, f % 10, v) that only show on particular numbers.',
 [RUL,LIB,OPS,DATA[0]],[('table of per-locale rule functions over the operands',RUL+' PRS_CARDINAL'),('PluralRules::create / select',LIB),('operand extraction',OPS)],['PluralRules::select of an instance created with PluralRuleType::CARDINAL'])
p('C02','Ordinal selection returns the category CLDR 37 assigns',
 'For every locale of the bundled CLDR 37 ordinal data and every decimal number (integer part below 2^64; at most 15 significant digits when its fraction is not zero), ordinal selection returns the category whose CLDR rule the number satisfies, and OTHER when it satisfies none. This holds whichever supported input type carries the number, and every sample number printed in the CLDR data lands in the category it is listed under.',
 ['inputs','configurations'],'all 97 ordinal locales x all decimal numbers x all input types',
 'The suite checks two numbers in uk.',
 [RUL,LIB,OPS,DATA[1]],[('table of per-locale rule functions over the operands',RUL+' PRS_ORDINAL'),('PluralRules::create / select',LIB)],['PluralRules::select of an instance created with PluralRuleType::ORDINAL'])
p('C03','Rules exist for exactly the CLDR locales, with no fallback',
 'A rule set can be created for exactly the locales of the CLDR 37 data of the requested type (root excepted), however the identifier is cased or separated, and the instance (and every clone of it) reports exactly the locale it was created for. The list of available locales contains each of these once and nothing else, separately per rule type. Every other identifier (another region, script or variant, und, an unknown language) is an error, never a fallback and never another locale\'s rules.',
 ['inputs','configurations'],'all language identifiers x both rule types',
 'Tests create rules for four locales and look up one unknown one; one misplaced or misencoded entry in a table of 309 breaks the binary search only for some identifiers.',
 [LIB,RUL],[('binary search in the sorted tables',LIB+' PluralRules::create'),('sorted tables of unchecked raw language identifiers',RUL),('PluralRules::get_locales / get_locale',LIB)],['PluralRules::create, get_locales, get_locale'])
p('C04','Operands of decimal text are exactly those UTS 35 defines',
 'For every text consisting of an optional minus sign, decimal digits and optionally a point and further digits, whose integer part and fraction digits each fit 64 bits, conversion succeeds with n the absolute value (correctly rounded to a double), i the integer part, v and f the number and value of the visible fraction digits, and w and t the same without trailing zeros. The sign and leading zeros of the integer part never matter. &str and String give the same operands.',
 ['inputs'],'all decimal texts with 64-bit integer and fraction digits, any number of leading and trailing zeros',
 '13 literal strings, all below 2^53 and with at most 7 fraction digits.',
 [OPS],[('TryFrom<&str> and TryFrom<String> for PluralOperands',OPS)],['PluralOperands::try_from on text'])
p('C05','Operands of native numbers equal those of their decimal form',
 'Every value of every supported unsigned and signed integer type converts to its exact absolute value as i, the nearest double as n and no fraction digits; only the minimum of a 64-bit signed type may be refused. Every finite f32 and f64 below 2^64 converts to the operands of the shortest decimal text that reads back as that float, with n that absolute value; NaN, infinities and larger floats are errors.',
 ['inputs'],'all values of u8..u64, usize, i8..i64, isize, f32, f64',
 '7 small integers and 5 floats are tested, all through i32 and f64; the other types have no test.',
 [OPS],[('integer, signed integer and float conversion macros',OPS)],['PluralOperands::from / try_from on numeric types'])
p('C06','Input that is not a number is an error, and success is consistent',
 'Text that is not a finite decimal number (empty, words, nan, inf, two signs, two points, a point without digits on both sides, stray blanks or characters, any Unicode) never yields operands or a category: conversion and selection return an error. No text makes them panic or fail to terminate. Whenever any conversion of a text succeeds, the operands describe one number: n is finite and not negative, i is its integer part, w <= v, f = t * 10^(v-w) < 10^v, t does not end in 0, and n = i + f / 10^v up to double rounding.',
 ['inputs'],'all strings',
 'One non-number ("foo") is tested; the test file itself says that empty and non-numeric input are still to be tested.',
 [OPS,LIB],[('number recognition before digit slicing',OPS+' TryFrom<&str>'),('error mapping',LIB+' PluralRules::select')],['PluralOperands::try_from(&str / String), PluralRules::select'])
p('C07','Selection depends on the number, not on how it is passed',
 'In every locale and rule type, selection gives the same result for all carriers of one number with the same visible digits: each integer type that can hold it, &str, String, f32/f64 whose shortest form is that text, ready-made operands, and a caller\'s own type converting to those operands. Changing the sign, adding leading zeros, or using a clone of the rule set never changes the result, and a caller\'s type is evaluated on exactly the operands it supplies, with its conversion error reported as an error.',
 ['inputs','configurations'],'all locales x all numbers x all carriers, and all caller-supplied operand tuples',
 'One custom type with one value in one locale; no test compares carriers.',
 [LIB,OPS],[('generic select over TryInto<PluralOperands>',LIB),('conversion impls',OPS)],['PluralRules::select'])
p('C08','Every UTS 35 plural condition parses to the AST it denotes',
 'Every condition of the UTS 35 plural rule grammar (all operands n i v w f t; % and mod; =, !=, is, is not, in, not in, within, not within; values and ranges in lists; and, or) parses to the AST with exactly those relations, values and order, grouped as or of ands. This holds for every amount of optional blanks (spaces, tabs, line breaks) at both ends and around operators, the modulus, commas and the range dots, for every amount of required blanks around and/or, for all values that fit a machine word, with or without samples, and identically in the rule parser and the condition parser.',
 ['inputs','programs'],'all conditions of the grammar in all blank-separated spellings',
 'Ten fixed conditions; is not, not within, mod, lists mixing values and ranges, and blank variants are not tested.',
 [PAR,PLIB,AST],[('nom combinators per grammar production',PAR)],['parse_plural_rule, parse_plural_condition'])
p('C09','Sample lists are parsed completely and in order',
 'For every rule with samples, with or without a condition, the parsed rule carries the @integer and the @decimal list each where written (and none where absent), with every sample and range in order, both bounds of each range, the integer part and the fraction digits of each bound, and the ellipsis exactly when the list ends in one of its two spellings. The samples never alter the parsed condition.',
 ['inputs','programs'],'all sample lists of the grammar, on conditions and on their own',
 'No test looks at samples at all; they only appear as text to be skipped.',
 [PAR,AST],[('samples, sample_list, sample_range, decimal_value',PAR)],['parse_plural_rule(...).samples'])
p('C10','The parser accepts nothing it does not represent, and never panics',
 'Whenever the rule parser accepts a text, the AST accounts for all of it: printing the AST gives back the text up to blanks, the spelling of modulus and ellipsis, and leading zeros. Every other text is an error (unknown operands, operators or words, missing values, numbers too big for a machine word, anything after the rule), the condition parser never returns relations that are not what its text begins with, and neither ever panics or fails to terminate on any string.',
 ['inputs'],'all strings, in particular near-misses of valid rules',
 'No test feeds the parser an invalid rule.',
 [PAR,PLIB],[('complete-consumption check',PLIB+' parse_plural_rule'),('combinators',PAR)],['parse_plural_rule, parse_plural_condition'])
p('C11','Generated code computes the rules it was generated from',
 'For every set of plural rules in UTS 35 syntax (any operands, non-zero moduli, operators, lists, and/or nesting, any subset of the categories, values below 2^53, blanks as in the CLDR data), the Rust code the generator writes compiles against the library and, for every locale and every decimal number, returns the category whose condition the number satisfies, and OTHER when it satisfies none.',
 ['programs','inputs'],'all CLDR-format rule sets x all decimal numbers',
 'Tests compare the output text for two fixed inputs with stored output; they never run generated code, and cover only rule shapes of CLDR 33.',
 [GPR,GRS,GLIB],[('AST to Rust expression translation',GPR),('category chain',GRS+' gen_mid, create_return')],['compiled output of the make_pluralrules tool, called with operands'])
p('C12','Generated tables list exactly the input locales, findable and stable',
 'For every valid input, the generated table of each rule type has exactly one entry per input locale other than root, under exactly its language, script and region, in an order in which the library\'s lookup finds each of them, and next to the CLDR version of the input. The generated code depends only on the data: not on the order of the input files, of the keys or of the samples, on JSON layout, on repetition of the run, or on how cardinal and ordinal data are split over files.',
 ['programs','histories'],'all locale sets (with scripts and regions) and all arrangements of the same data',
 'The two fixture inputs contain one region, no script, and one arrangement.',
 [GLIB,GRS,GRES],[('sorting by language identifier before emission',GLIB+' gen_type_rs'),('raw subtag encoding',GRS+' gen_langid'),('maps ordered by key',GLIB+' generate_rs')],['compiled tables and output text of the tool'])
p('C13','The generator refuses input it cannot translate faithfully',
 'Input that is not valid CLDR plural JSON, lacks a version or any plural data, mixes CLDR versions, repeats a rule type, names a version that is not a number or a locale that is not a plain language identifier (variants included), names a plural category CLDR does not have, or contains a condition that is not entirely UTS 35 syntax, is refused: the library call does not return code and the tool exits with an error. One bad item among any amount of good ones is enough, in whichever file, type, locale or category it is.',
 ['inputs','programs'],'all inputs with at least one fault, at every position',
 'Four hand-made faulty inputs, three of which fail for a misspelt key rather than for the named fault.',
 [GLIB,GRES,GRS],[('version and duplicate checks',GLIB+' generate_rs'),('rule and locale parsing with hard failure',GLIB+' gen_type_rs'),('typed JSON resource',GRES)],['generate_rs; exit status of the tool'])
p('C14','The shipped rules are what the shipped data and generator produce',
 'Regenerating the library\'s rules from the bundled CLDR files with the bundled tool gives, for both rule types, the same locales, the same CLDR version and, for every locale and number, the same category as the shipped rules; so an update of the data never silently changes or loses what was there.',
 ['inputs','configurations'],'all locales and numbers, both rule types',
 'Nothing in the suite compares rules.rs with the data or with the generator; the generator tests use a different CLDR version.',
 [RUL,GLIB,GPR,GRS]+DATA,[('regenerate-data alias','intl_pluralrules/.cargo/config'),('generate_rs',GLIB),('checked-in output',RUL)],['regenerated, compiled tables against the shipped library'])
p('C15','The tool writes complete output or reports failure',
 'When the tool exits successfully, the output file holds exactly the code for all of the given inputs: formatted and compilable by default, verbatim with the ugly flag, replacing whatever was there before. When an input is missing, unreadable or refused, it exits with an error and leaves an existing output file as it was and creates none; when the output cannot be written or formatted it exits with an error. Inputs and all other files are never changed.',
 ['fault_sequences','inputs','configurations'],'all combinations of inputs, flags and faults (missing or unreadable input, unwritable or full output, absent or failing formatter)',
 'The tool\'s main function has no test.',
 [GMAIN,GLIB],[('read and generate everything before creating the output',GMAIN),('error exit on write or format failure',GMAIN)],['exit status and file system effects of the make_pluralrules process'])
p('C16','Results depend only on the arguments, in any history and schedule',
 'Every call of the library, the parser and the generator returns a result that depends on its arguments alone: not on earlier calls, on the instance or thread used, or on calls running at the same time. Rule sets can be cloned, sent to and shared between threads and used concurrently without synchronisation or data races, and a call that fails leaves later calls unaffected.',
 ['schedules','histories'],'all call histories and thread interleavings over the public API',
 'Tests run each call once, in one thread, in one order.',
 [LIB,OPS,RUL,PLIB,GLIB],[('stateless functions over const tables',LIB),('no interior mutability in PluralRules',LIB)],['public API called from many threads and in permuted histories'])
p('C17','Safe callers never trigger undefined behaviour or memory errors',
 'No sequence of calls to the safe public API of the three crates, with any arguments, causes undefined behaviour, out-of-bounds or uninitialised reads, invalid values, leaks or memory corruption. In particular every locale the unchecked tables contain is a valid language identifier equal to what parsing its text gives.',
 ['inputs','histories'],'all call sequences with all arguments, hostile strings included',
 'Ordinary tests do not observe undefined behaviour; the tables are built through unsafe unchecked constructors.',
 [RUL,LIB,OPS,PAR],[('unsafe langid! macro over raw subtags',RUL),('str slicing at ASCII boundaries',OPS)],['execution under Miri and AddressSanitizer'])
p('C18','Answers are the same on 32-bit, 64-bit and big-endian platforms',
 'The operands, categories and available locales for every 64-bit input do not depend on the word size or byte order of the platform: what a 32-bit or big-endian target computes equals what x86-64 computes, for every input type and locale, without wrapping or panicking.',
 ['configurations','inputs'],'targets with 32- and 64-bit words, little- and big-endian, x inputs',
 'The suite runs on one platform only; one test comments on 32-bit systems but cannot observe them.',
 [OPS,RUL],[('u64 operands instead of usize, i64 instead of isize arithmetic',OPS),('raw subtags stored as integers',RUL)],['the same event log recorded natively and under Miri for i686 and s390x'])
p('C19','Every selection ends in one of the locale\'s own categories',
 'For every rule set and every combination of operand values a caller can supply (consistent or not; n negative, NaN or infinite; any i, v, w, f, t), selection returns a category without panicking, and the same one each time. That category is always one CLDR 37 lists for the locale and rule type, and every listed category is returned for some number. Whatever cannot be converted to operands gives an error, never a category.',
 ['inputs','configurations'],'all rule sets x all operand tuples, including those that describe no number',
 'The suite passes a few well-formed numbers; operands are a public struct, so callers can build any tuple, and messages are translated only for the categories CLDR lists.',
 [RUL,LIB,OPS],[('total if/else chains ending in OTHER',RUL),('conversion error mapped to an error',LIB+' PluralRules::select')],['PluralRules::select with caller-made operands, texts and native numbers'])
p('C20','Work and memory grow only in proportion to the input',
 'The instructions executed and the memory allocated by converting or selecting on a text, by parsing a rule or condition, and by generating code grow at most in proportion to the size of the input (up to a logarithmic factor in the generator), whether it is accepted or refused. However long the digits, blanks, lists, conditions, samples or locale tables are, nothing becomes quadratic or worse, or runs out of stack. No memory stays allocated per call once the call has returned and its result is dropped.',
 ['inputs','histories'],'all inputs of growing size, and all sequences of calls',
 'Tests use short inputs, on which quadratic and linear work cannot be told apart, and do not watch memory.',
 [OPS,PAR,PLIB,GLIB,GPR,GRS],[('single-pass combinator parser without unbounded backtracking',PAR),('constant number of passes over the text',OPS),('token streams concatenated once per level',GPR)],['instructions counted by callgrind and allocations counted by the global allocator around single calls'])
p('C21','Calls have no effect besides their result',
 'No call of the library, the parser or generate_rs, whether it returns, fails or panics, does anything observable besides giving its result: nothing is written to the standard streams, no file, directory, network or device is touched, no thread or process is started, no signal handler or other process setting is changed, and environment variables, the working directory, the C locale and the panic hook stay as they were (a panic goes through the hook its caller installed).',
 ['inputs','histories'],'all calls with all arguments, returning, failing and panicking',
 'Tests compare results; output, files and settings changed along the way are invisible to them.',
 [OPS,LIB,PAR,PLIB,GLIB,GPR,GRS],[('pure conversion, lookup and selection',LIB),('combinators returning errors by value',PLIB),('generator from texts to text, refusing by panic',GLIB)],['system calls between markers around batches of calls; standard streams, environment, locale and panic hook of the calling process'])
p('C22','Values compare, copy and print by all of their parts',
 'Two rules, conditions, relations or sample lists of the parser, or two plural operands, compare equal exactly when every one of their parts is the same (n as a number, list items in order, presence of modulus, samples, fraction and ellipsis included), and != is the opposite of ==. A clone has the same parts as its original and is independent of it; the Debug text of values with different parts is different. Plural categories, rule types, operands and operators compare equal only to themselves, and equal ones hash alike.',
 ['inputs'],'all pairs of values that can be built from the public types',
 'Tests compare a parsed value with an expected one and would keep passing when equality forgets a part: the assertions themselves rest on it.',
 [AST,OPS,LIB],[('derived PartialEq, Clone and Debug of the AST',AST),('PartialEq and Debug of the operands',OPS),('derives of PluralCategory and PluralRuleType',LIB)],['==, !=, clone, clone_from and {:?} of pairs of values differing in one place'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
