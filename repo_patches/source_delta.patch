From 19301167507e5f523d172380a2b4ad476eb44ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:22 +0000
Subject: [PATCH 01/18] fix: read the integer operand of a plain digit string
 exactly

"9007199254740993" went through f64 and came back with i = 9007199254740992,
unlike "9007199254740993.0" and 9007199254740993_u64.
---
 intl_pluralrules/src/operands.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 102ae87..1640ca1 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -103,7 +103,8 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
                 u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
-            integer_digits = absolute_value as u64;
+            // Plain digits are read exactly: a f64 holds integers only up to 2^53.
+            integer_digits = u64::from_str(&abs_str).unwrap_or(absolute_value as u64);
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From 7b6757e1224e1391b32cb3b203fe9c9e2b407861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:24 +0000
Subject: [PATCH 02/18] fix: do not invent operands for inputs that have none

"nan", "inf" and the non-finite floats were accepted with i = 0 or u64::MAX,
"15e-1" was accepted with n = 1.5 and no fraction digits, and integers of 2^64
and above were accepted with i = u64::MAX. All of them are errors now, as they
already were when written with a decimal point.
---
 intl_pluralrules/src/operands.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 1640ca1..7c82d35 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -104,7 +104,15 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
             fraction_digits = u64::from_str(backtrace).unwrap_or(0);
         } else {
             // Plain digits are read exactly: a f64 holds integers only up to 2^53.
-            integer_digits = u64::from_str(&abs_str).unwrap_or(absolute_value as u64);
+            integer_digits = match u64::from_str(&abs_str) {
+                Ok(digits) => digits,
+                // Scientific notation of an integer, such as "1e3", has no fraction digits either.
+                Err(_) if absolute_value.fract() == 0.0 && absolute_value < 2_f64.powi(64) => {
+                    absolute_value as u64
+                }
+                // Not finite, not an integer, or too big for the integer operand.
+                Err(_) => return Err("Could not convert string to integer!"),
+            };
             num_fraction_digits0 = 0;
             num_fraction_digits = 0;
             fraction_digits0 = 0;
-- 
2.43.0


From ab889f439aa0893c26f6c49d4abbf3b7d7c2cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:25 +0000
Subject: [PATCH 03/18] fix: reject numbers with a second sign

"--5" was accepted with the negative n = -5.0 and i = 0, and "-+5" as 5.
---
 intl_pluralrules/src/operands.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 7c82d35..1e06b12 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -80,6 +80,11 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
             &input
         };
 
+        // The float parser takes a sign of its own: "--5" and "-+5" are not numbers.
+        if abs_str.len() < input.len() && abs_str.starts_with(|c| c == '-' || c == '+') {
+            return Err("Incorrect number passed!");
+        }
+
         let absolute_value = f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?;
 
         let integer_digits;
-- 
2.43.0


From e37f2c26e50ddfd573cab65388e2fbbdc799c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:44 +0000
Subject: [PATCH 04/18] fix: do not wrap i64 on targets with a 32-bit isize

On such targets 4294967297_i64 had the operands of 1.
---
 intl_pluralrules/src/operands.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 1e06b12..15072c6 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -161,8 +161,7 @@ macro_rules! impl_signed_integer_type {
         impl TryFrom<$ty> for PluralOperands {
             type Error = &'static str;
             fn try_from(input: $ty) -> Result<Self, Self::Error> {
-                // XXXManishearth converting from i64 to isize may wrap
-                let x = (input as isize).checked_abs().ok_or("Number too big")?;
+                let x = (input as i64).checked_abs().ok_or("Number too big")?;
                 Ok(PluralOperands {
                     n: x as f64,
                     i: x as u64,
-- 
2.43.0


From 6108a0184e8e3f0de21fff4a7cafdbc3b9c23379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:10 +0000
Subject: [PATCH 05/18] fix: keep the samples of a rule that has no condition

parse_plural_rule(" @integer 0") dropped everything from the @ on, so the
samples of every "other" rule were lost and "@nonsense" was a valid rule.
---
 cldr_pluralrules_parser/src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 324708f..f1d04ad 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -148,11 +148,11 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
     map(
         tuple((
             opt(preceded(
-                tuple((space1, tag("@integer"), space1)),
+                tuple((space0, tag("@integer"), space1)),
                 sample_list,
             )),
             opt(preceded(
-                tuple((space1, tag("@decimal"), space1)),
+                tuple((space0, tag("@decimal"), space1)),
                 sample_list,
             )),
         )),
@@ -178,8 +178,9 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
         return IResult::Ok(("", Condition(vec![])));
     }
 
+    // The samples themselves are left for the caller.
     if i.trim().starts_with("@") {
-        return IResult::Ok(("", Condition(vec![])));
+        return IResult::Ok((i.trim_start(), Condition(vec![])));
     }
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
-- 
2.43.0


From 13b3163d170fdd20a0131690970a6e1e77ce135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:12 +0000
Subject: [PATCH 06/18] fix: a relation needs at least one value

"n =" was parsed into a relation with an empty range list, which UTS 35 does
not have and which matches no number.
---
 cldr_pluralrules_parser/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index f1d04ad..3646d3b 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{digit1, one_of, space0, space1},
     combinator::{map, map_res, opt},
-    multi::{separated_list, separated_nonempty_list},
+    multi::separated_nonempty_list,
     sequence::{preceded, separated_pair, tuple},
     IResult,
 };
@@ -33,7 +33,7 @@ fn range_list_item(i: &str) -> IResult<&str, RangeListItem> {
 
 fn range_list(i: &str) -> IResult<&str, RangeList> {
     map(
-        separated_list(tuple((space0, tag(","), space0)), range_list_item),
+        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
         RangeList,
     )(i)
 }
-- 
2.43.0


From 3add3f9399bef170bb3db99c069105b42a7815db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:13 +0000
Subject: [PATCH 07/18] fix: accept a modulus written without a blank

UTS 35 makes the blanks around tokens optional, but "n %10 = 1" was an error.
---
 cldr_pluralrules_parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index 3646d3b..c7542d0 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -52,7 +52,7 @@ fn operand(i: &str) -> IResult<&str, Operand> {
 
 fn mod_expression(i: &str) -> IResult<&str, Option<Modulo>> {
     opt(map(
-        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space1)), value),
+        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space0)), value),
         Modulo,
     ))(i)
 }
-- 
2.43.0


From 2b07f41b75b272c0f661eb5b56816ff526ef3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:39 +0000
Subject: [PATCH 08/18] fix: refuse rules whose condition is only partly
 understood

parse_plural_condition ignores what it cannot parse, so "n = 1 adn v = 0"
silently became the rule "n = 1".
---
 make_pluralrules/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index d233385..35dbbda 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -88,9 +88,11 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
             // cat_name is the simplified category name from the CLDR source file
             let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];
 
-            // representation is the
-            let representation = cldr_pluralrules_parser::parse_plural_condition(rule_line)
-                .expect("Parsing of a condition succeeded");
+            // representation is the AST of everything in front of the samples
+            let condition = rule_line.split('@').next().unwrap().trim_end();
+            let representation = cldr_pluralrules_parser::parse_plural_rule(condition)
+                .expect("Parsing of a condition succeeded")
+                .condition;
 
             let cat = if cat_name == "zero" {
                 PluralCategory::ZERO
-- 
2.43.0


From 1d01d52cb0d38c61ec2059b33492a3bb18cea51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:41 +0000
Subject: [PATCH 09/18] fix: generate every item of a within list, for the
 operand it names

Only the first range of "n within 1..2, 5..6" was generated, a list without a
range was an index out of bounds, and "f % 10 within 1..2" tested i % 10.
---
 make_pluralrules/src/parser/gen_pr.rs | 49 ++++++++++++++-------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index c31936f..317beb3 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -84,30 +84,32 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // If within type operator, use format x < po && po < y
     if operator == Operator::Within || operator == Operator::NotWithin {
-        let rfront = &(r1.1)[0].0;
-        let rback = &(r1.1)[0].1;
+        // A single value is a range of one
+        let values = r1.0.into_iter().map(|value| (value.clone(), value));
 
-        // Variants handled here
-        let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
-            if !mod_check {
-                (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
-            } else {
-                (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
-            }
-        } else {
-            (
-                quote!(#rfront),
-                quote!(#rback),
+        for (rfront, rback) in values.chain(r1.1) {
+            // Variants handled here
+            let (rfront, rback, whole_symbol) = if left.operand == Operand::N {
                 if !mod_check {
-                    quote!(po.#l)
+                    (quote!(#rfront.0), quote!(#rback.0), quote!(po.#l))
                 } else {
-                    quote!(po.i % #m)
-                },
-            )
-        };
+                    (quote!(#rfront), quote!(#rback), quote!(po.i % #m))
+                }
+            } else {
+                (
+                    quote!(#rfront),
+                    quote!(#rback),
+                    if !mod_check {
+                        quote!(po.#l)
+                    } else {
+                        quote!(po.#l % #m)
+                    },
+                )
+            };
 
-        let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
-        relations.push(rel_tokens);
+            let rel_tokens = quote! { #rfront #o #whole_symbol && #whole_symbol #o #rback};
+            relations.push(rel_tokens);
+        }
     // if not within type, use format po < x
     } else {
         // Recurisvely fold all values
@@ -173,15 +175,16 @@ fn create_relation(rel: Relation) -> TokenStream {
 
     // Unfold all expressions from folded expressions
     match operator {
-        Operator::In | Operator::Is | Operator::EQ => {
+        Operator::In | Operator::Is | Operator::EQ | Operator::Within => {
             if relations.len() > 1 {
                 quote! { ( #(#relations)||* ) }
             } else {
                 quote! { #(#relations)||* }
             }
         }
-        Operator::NotIn | Operator::NotEQ | Operator::IsNot => quote! { #(#relations)&&* },
-        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },
+        Operator::NotIn | Operator::NotEQ | Operator::IsNot | Operator::NotWithin => {
+            quote! { #(#relations)&&* }
+        }
     }
 }
 
-- 
2.43.0


From eb2eefdd88a283648498e1deb2a5c96356181966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 10/18] fix: refuse locales with variants instead of dropping
 the variants

The rules of "ca-valencia" were generated as a second entry for "ca", and a
binary search for "ca" found either of the two.
---
 make_pluralrules/src/parser/gen_rs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/parser/gen_rs.rs b/make_pluralrules/src/parser/gen_rs.rs
index 66c6f6a..2264dce 100644
--- a/make_pluralrules/src/parser/gen_rs.rs
+++ b/make_pluralrules/src/parser/gen_rs.rs
@@ -78,7 +78,7 @@ fn create_return(cat: PluralCategory, exp: &TokenStream) -> TokenStream {
 }
 
 pub fn gen_langid(id: &LanguageIdentifier) -> TokenStream {
-    let (lang, script, region, _) = id.clone().into_raw_parts();
+    let (lang, script, region, variants) = id.clone().into_raw_parts();
     let lang = if let Some(lang) = lang {
         quote!(subtags::Language::from_raw_unchecked(#lang))
     } else {
@@ -96,6 +96,9 @@ pub fn gen_langid(id: &LanguageIdentifier) -> TokenStream {
     };
 
     // No support for variants yet
+    if variants.is_some() {
+        panic!("Variants are not supported: {}", id);
+    }
 
     quote! {
         langid!(
-- 
2.43.0


From f1460f3b8c40184789f203c81f64c7c178912e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:14 +0000
Subject: [PATCH 11/18] fix: fail when rustfmt fails

The unformatted output ("po . n == 1 . 0") does not compile, so a rustfmt that
is there but does not work left a broken file behind and exit status 0.
---
 make_pluralrules/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/main.rs b/make_pluralrules/src/main.rs
index f8641a1..cf131bd 100644
--- a/make_pluralrules/src/main.rs
+++ b/make_pluralrules/src/main.rs
@@ -29,10 +29,16 @@ fn main() -> std::io::Result<()> {
     file.write_all(complete_rs_code.as_bytes())?;
 
     if !matches.is_present("ugly") {
-        Command::new("rustfmt")
+        let rustfmt = Command::new("rustfmt")
             .args(&[output_path])
             .output()
             .expect("Failed to format the output using `rustfmt`");
+        if !rustfmt.status.success() {
+            panic!(
+                "Failed to format the output using `rustfmt`: {}",
+                String::from_utf8_lossy(&rustfmt.stderr)
+            );
+        }
     }
 
     Ok(())
-- 
2.43.0


From 09890aaacee12594a934ec682f006f8262292bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:06 +0000
Subject: [PATCH 12/18] fix: accept blanks wherever UTS 35 allows them

Leading and trailing blanks, line breaks and blanks around '..' were
refused.
---
 cldr_pluralrules_parser/src/parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cldr_pluralrules_parser/src/parser.rs b/cldr_pluralrules_parser/src/parser.rs
index c7542d0..f920ff8 100644
--- a/cldr_pluralrules_parser/src/parser.rs
+++ b/cldr_pluralrules_parser/src/parser.rs
@@ -3,10 +3,10 @@ use nom::{
     branch::alt,
     //error::context,
     bytes::complete::tag,
-    character::complete::{digit1, one_of, space0, space1},
+    character::complete::{digit1, multispace0 as space0, multispace1 as space1, one_of},
     combinator::{map, map_res, opt},
     multi::separated_nonempty_list,
-    sequence::{preceded, separated_pair, tuple},
+    sequence::{preceded, separated_pair, terminated, tuple},
     IResult,
 };
 
@@ -16,7 +16,7 @@ fn value(i: &str) -> IResult<&str, Value> {
 
 fn range(i: &str) -> IResult<&str, Range> {
     map(
-        separated_pair(value, tag(".."), value),
+        separated_pair(value, tuple((space0, tag(".."), space0)), value),
         |(lower_val, upper_val)| Range {
             lower_val,
             upper_val,
@@ -167,9 +167,12 @@ fn samples(i: &str) -> IResult<&str, Option<Samples>> {
 }
 
 pub fn parse_rule(i: &str) -> IResult<&str, Rule> {
-    map(tuple((parse_condition, samples)), |(condition, samples)| {
-        Rule { condition, samples }
-    })(i)
+    terminated(
+        map(tuple((parse_condition, samples)), |(condition, samples)| {
+            Rule { condition, samples }
+        }),
+        space0,
+    )(i)
 }
 
 pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
@@ -185,5 +188,5 @@ pub fn parse_condition(i: &str) -> IResult<&str, Condition> {
     map(
         separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
         Condition,
-    )(i)
+    )(i.trim_start())
 }
-- 
2.43.0


From da094df30cc1a0d0259fd17c6a32c44e398eea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:42 +0000
Subject: [PATCH 13/18] fix: refuse relations without a value

The generator wrote code that does not compile for them.
---
 make_pluralrules/src/parser/gen_pr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/make_pluralrules/src/parser/gen_pr.rs b/make_pluralrules/src/parser/gen_pr.rs
index 317beb3..3358075 100644
--- a/make_pluralrules/src/parser/gen_pr.rs
+++ b/make_pluralrules/src/parser/gen_pr.rs
@@ -65,6 +65,9 @@ fn create_relation(rel: Relation) -> TokenStream {
     };
     let l = Ident::new(l, Span::call_site());
     let o = get_operator_symbol(&operator);
+    if right.0.is_empty() {
+        panic!("A relation needs at least one value");
+    }
     let r1 = convert_rangl(right);
 
     // If there is a modulus, convert to literal. If not, placehold literal
-- 
2.43.0


From f7a22ab1f603058315ca0c15ab01b688c1007587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:44 +0000
Subject: [PATCH 14/18] fix: refuse unknown plural categories instead of
 dropping their rules

---
 make_pluralrules/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index 35dbbda..31137d8 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -104,8 +104,10 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
                 PluralCategory::FEW
             } else if cat_name == "many" {
                 PluralCategory::MANY
-            } else {
+            } else if cat_name == "other" {
                 PluralCategory::OTHER
+            } else {
+                panic!("Unknown plural category: {}", rule_name);
             };
 
             // Only allow rules that are not `OTHER` to be added. `OTHER` can have no rules and is added outside of the loop.
-- 
2.43.0


From fd6694c9520adbbc6daf97aada1649eb09defb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:23 +0000
Subject: [PATCH 15/18] fix: compare with 2^64 exactly on every platform

---
 intl_pluralrules/src/operands.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/intl_pluralrules/src/operands.rs b/intl_pluralrules/src/operands.rs
index 15072c6..a7b713f 100644
--- a/intl_pluralrules/src/operands.rs
+++ b/intl_pluralrules/src/operands.rs
@@ -112,7 +112,10 @@ impl<'a> TryFrom<&'a str> for PluralOperands {
             integer_digits = match u64::from_str(&abs_str) {
                 Ok(digits) => digits,
                 // Scientific notation of an integer, such as "1e3", has no fraction digits either.
-                Err(_) if absolute_value.fract() == 0.0 && absolute_value < 2_f64.powi(64) => {
+                Err(_)
+                    if absolute_value.fract() == 0.0
+                        && absolute_value < 18_446_744_073_709_551_616.0 =>
+                {
                     absolute_value as u64
                 }
                 // Not finite, not an integer, or too big for the integer operand.
-- 
2.43.0


From 1fd792feee54cc5f6d901127528f2b30a86c8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 16/18] fix: refuse a condition of the "other" category that
 has no value

The parser accepts "n =" with an empty list; the refusal only ran for the
categories whose code is generated.
---
 make_pluralrules/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index 31137d8..6b095b7 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -110,9 +110,10 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
                 panic!("Unknown plural category: {}", rule_name);
             };
 
+            let tokens = parser::gen_pr::gen_pr(representation);
+
             // Only allow rules that are not `OTHER` to be added. `OTHER` can have no rules and is added outside of the loop.
             if cat != PluralCategory::OTHER {
-                let tokens = parser::gen_pr::gen_pr(representation);
                 this_lang_rules.push((cat, tokens));
             }
         }
-- 
2.43.0


From 34f46b746ab27b60a3fb1f2d882763da87d60502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:09 +0000
Subject: [PATCH 17/18] fix: refuse category keys that only resemble CLDR's

---
 make_pluralrules/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index 6b095b7..c080e82 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -86,7 +86,9 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
 
         for (rule_name, rule_line) in r {
             // cat_name is the simplified category name from the CLDR source file
-            let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];
+            let cat_name = rule_name
+                .strip_prefix("pluralRule-count-")
+                .unwrap_or_else(|| panic!("Unknown plural category: {}", rule_name));
 
             // representation is the AST of everything in front of the samples
             let condition = rule_line.split('@').next().unwrap().trim_end();
-- 
2.43.0


From bda1244264b22e2a1e9966441a5d1a058669c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:37 +0000
Subject: [PATCH 18/18] fix: refuse a category without a condition

---
 make_pluralrules/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/make_pluralrules/src/lib.rs b/make_pluralrules/src/lib.rs
index c080e82..866038f 100644
--- a/make_pluralrules/src/lib.rs
+++ b/make_pluralrules/src/lib.rs
@@ -112,6 +112,11 @@ fn gen_type_rs(rules: BTreeMap<String, BTreeMap<String, String>>) -> Vec<TokenSt
                 panic!("Unknown plural category: {}", rule_name);
             };
 
+            // Only `OTHER` stands for whatever is left.
+            if cat != PluralCategory::OTHER && representation.0.is_empty() {
+                panic!("Missing condition of {} in {}", rule_name, lang);
+            }
+
             let tokens = parser::gen_pr::gen_pr(representation);
 
             // Only allow rules that are not `OTHER` to be added. `OTHER` can have no rules and is added outside of the loop.
-- 
2.43.0

