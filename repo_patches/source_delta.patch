From a4dd67a3227b3f246214fd0540c4659ecdef1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 01/40] fix: power_iu returned 0 for a^0 and 1 for a^1

---
 projects/sm-algorithm/src/basic/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 4f12eab..ca97556 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -3,7 +3,6 @@ use crate::{
     Result,
 };
 use num::{
-    bigint::Sign,
     integer::{gcd, ExtendedGcd},
     traits::Pow,
     BigInt, BigUint, Integer, One, ToPrimitive, Zero,
@@ -13,14 +12,17 @@ pub fn power_iu(a: &BigInt, b: &BigUint) -> Result<BigInt> {
     if a.is_zero() && b.is_zero() {
         return Err(Indeterminate);
     }
-    else if a.is_zero() || b.is_zero() {
+    else if a.is_zero() {
         return Ok(BigInt::zero());
     }
+    else if b.is_zero() {
+        return Ok(BigInt::one());
+    }
     else if a.is_one() {
         return Ok(BigInt::one());
     }
     else if b.is_one() {
-        return Ok(BigInt::from_biguint(Sign::Plus, b.clone()));
+        return Ok(a.clone());
     }
     match b.to_u32() {
         None => Err(OverFlow),
-- 
2.43.0


From 2733cebe93684ded66a097cd25424118df5acdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 02/40] fix: modulo_division used the Bezout coefficient of m,
 and divided by zero for b = m = 0

---
 projects/sm-algorithm/src/basic/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index ca97556..d0c9ddf 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -72,8 +72,11 @@ fn test_modulo_inverse() {
 /// division in modulo
 /// $bx \equiv a \pmod{m}$
 pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {
-    let ExtendedGcd { gcd, x: _, y, .. } = b.extended_gcd(m);
-    if (a % &gcd).is_zero() { Some(a / &gcd * y) } else { None }
+    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);
+    if gcd.is_zero() {
+        return if a.is_zero() { Some(BigInt::zero()) } else { None };
+    }
+    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }
 }
 
 #[test]
-- 
2.43.0


From 57e8bda5505935d1a5ede93fb8ef50217fb92d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 03/40] fix: chinese_remainder panicked on a zero modulus and
 on empty input

---
 projects/sm-algorithm/src/basic/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index d0c9ddf..3b41004 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -95,6 +95,12 @@ pub fn chinese_remainder(u: &[BigInt], m: &[BigInt]) -> Option<BigInt> {
     if u.len() != m.len() {
         return None;
     }
+    if m.iter().any(|m_i| m_i.is_zero()) {
+        return None;
+    }
+    if m.is_empty() {
+        return Some(BigInt::zero());
+    }
     let mut v = Vec::with_capacity(u.len());
     for (i, (u_i, m_i)) in u.iter().zip(m.iter()).enumerate() {
         let c_i = modulo_inverse(&m[0..i].iter().fold(BigInt::one(), |p, v| p * v % m_i), &m_i.clone())?;
-- 
2.43.0


From 9e8a7646dede7048413e3a9b3e9de3ff4f8d2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 04/40] fix: factorial_i reported an overflow for negative
 integers below isize::MIN

---
 projects/sm-algorithm/src/gamma/factorial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/gamma/factorial.rs b/projects/sm-algorithm/src/gamma/factorial.rs
index 64b37ae..68b7892 100644
--- a/projects/sm-algorithm/src/gamma/factorial.rs
+++ b/projects/sm-algorithm/src/gamma/factorial.rs
@@ -1,5 +1,5 @@
 use crate::Result;
-use num::{BigInt, ToPrimitive};
+use num::{BigInt, Signed, ToPrimitive};
 // ```wl
 // TemplateApply[
 // "cache.insert(`1`,BigInt::from(`2`));\n",
@@ -29,6 +29,7 @@ pub fn factorial_i(n: &BigInt) -> Result<BigInt> {
                 Ok(BigInt::from(factorial_fold_u(s as usize)))
             }
         }
+        None if n.is_negative() => Err(ComplexInfinity),
         None => Err(OverFlow),
     }
 }
-- 
2.43.0


From 1c301e91b6d88ab3aa0328f18c44be3b60ed8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 05/40] fix: fibonacci_i reinterpreted negative indices as huge
 unsigned ones

---
 projects/sm-algorithm/src/linear/fibonacci.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/linear/fibonacci.rs b/projects/sm-algorithm/src/linear/fibonacci.rs
index 84d6206..e38c806 100644
--- a/projects/sm-algorithm/src/linear/fibonacci.rs
+++ b/projects/sm-algorithm/src/linear/fibonacci.rs
@@ -5,8 +5,8 @@ use std::collections::BTreeMap;
 pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {
     match n.to_isize() {
         Some(s) => {
-            let u = fibonacci_fast_u(s as usize);
-            if s < 0 && s.is_even() { Ok(BigInt::from(-u)) } else { Ok(BigInt::from(u)) }
+            let u = fibonacci_fast_u(s.unsigned_abs());
+            if s < 0 && s.is_even() { Ok(-BigInt::from(u)) } else { Ok(BigInt::from(u)) }
         }
         None => Err(OverFlow),
     }
-- 
2.43.0


From 414aef7d920da752887f51c0d9acadfe120f4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 06/40] fix: prime_sum_u64 panicked on 0

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 28cf76a..4b0e668 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,6 +12,9 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    if n == 0 {
+        return 0;
+    }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
-- 
2.43.0


From bd78d8a69e065b3a523addbd6f429de87cdb701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 07/40] fix: prime_sum_i overflowed u64 arithmetic beyond
 u32::MAX

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 4b0e668..e8de119 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -80,8 +80,9 @@ pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {
         return Err(Undefined(String::from("wrong def")));
     }
     return match n.to_u64() {
-        None => Err(Unimplemented),
-        Some(s) => Ok(BigInt::from(prime_sum_u64(s))),
+        // the intermediate sums i * (i + 1) of prime_sum_u64 fit into u64 up to here
+        Some(s) if s <= u32::MAX as u64 => Ok(BigInt::from(prime_sum_u64(s))),
+        _ => Err(Unimplemented),
     };
 }
 
-- 
2.43.0


From f12cf9a57be6794b408d9a97c59f97630cdfdb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 08/40] fix: grammar: '==', '//', '>=' and ';;' were shadowed
 by their one-character prefixes

---
 projects/sm-parser/simple-math.pest | 8 ++++----
 projects/sm-parser/src/sm_parser.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8fc32f0..a18bec1 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -13,7 +13,7 @@ statement = _{
   | expression
 }
 /*====================================================================================================================*/
-emptyStatement = {eos | Separate}
+emptyStatement = {Separate | eos}
 eos = {Semicolon}
 comma_or_semi = _{Comma|Semicolon}
 block_or_stmt = _{block|Set ~ statement}
@@ -194,11 +194,11 @@ Suffix = @{
   | Bang | Question
 }
 Infix = _{
-    Set
+    Equal|Set
   | Plus|Minus
-  | Multiply|CenterDot|Kronecker|TensorProduct|Divide|Quotient|Modulo
+  | Multiply|CenterDot|Kronecker|TensorProduct|Quotient|Divide|Modulo
   | Power
-  | Grater|GraterEqual|Equal
+  | GraterEqual|Grater
   | Dot
 }
 
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b3de4f1..962fb66 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -180,7 +180,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn emptyStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::emptyStatement, |state| self::eos(state).or_else(|state| self::Separate(state)))
+                    state.rule(Rule::emptyStatement, |state| self::Separate(state).or_else(|state| self::eos(state)))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -590,7 +590,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Infix(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    self::Set(state).or_else(|state| self::Plus(state)).or_else(|state| self::Minus(state)).or_else(|state| self::Multiply(state)).or_else(|state| self::CenterDot(state)).or_else(|state| self::Kronecker(state)).or_else(|state| self::TensorProduct(state)).or_else(|state| self::Divide(state)).or_else(|state| self::Quotient(state)).or_else(|state| self::Modulo(state)).or_else(|state| self::Power(state)).or_else(|state| self::Grater(state)).or_else(|state| self::GraterEqual(state)).or_else(|state| self::Equal(state)).or_else(|state| self::Dot(state))
+                    self::Equal(state).or_else(|state| self::Set(state)).or_else(|state| self::Plus(state)).or_else(|state| self::Minus(state)).or_else(|state| self::Multiply(state)).or_else(|state| self::CenterDot(state)).or_else(|state| self::Kronecker(state)).or_else(|state| self::TensorProduct(state)).or_else(|state| self::Quotient(state)).or_else(|state| self::Divide(state)).or_else(|state| self::Modulo(state)).or_else(|state| self::Power(state)).or_else(|state| self::GraterEqual(state)).or_else(|state| self::Grater(state)).or_else(|state| self::Dot(state))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From af696a5664ea34c990fb719bcc4d700ab2d0d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 09/40] fix: grammar: decimals whose fraction starts with 0
 were split in two (1.05 read as 1.0 * 5)

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index a18bec1..8cb52cc 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -146,7 +146,7 @@ Step = {expr}
 /*====================================================================================================================*/
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
-Decimal = ${Integer ~ Dot ~ Integer}
+Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
 Integer = @{"0"|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 962fb66..148cd43 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -500,7 +500,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Decimal(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::Integer(state)))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| state.match_range('0'..'9')).and_then(|state| state.repeat(|state| state.match_range('0'..'9'))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From b671bd20090fc268a9b5cea48d6cdf3f1584dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 10/40] fix: grammar: names starting with a keyword were split
 (nullity, trueish, asset, passed)

---
 projects/sm-parser/simple-math.pest | 14 +++++++-------
 projects/sm-parser/src/sm_parser.rs | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8cb52cc..2be9b42 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -29,7 +29,7 @@ module_block = {"{"~module_tuple~ ( comma_or_semi? ~ module_tuple)* ~comma_or_se
 module_tuple = {use_alias|use_module_select}
 ModuleSplit= _{Dot|Proportion}
 //!#C678DD: Import|As
-As   = @{"as"}
+As   = @{"as" ~ !XID_CONTINUE}
 /*====================================================================================================================*/
 controlFlow = _{re_control|if_statement|for_statement}
 block = !{"{" ~ statement+ ~ "}"}
@@ -52,13 +52,13 @@ re_control = {
 }
 
 //!#C678DD: Return|Yield|Break|Pass
-Return = @{"return"}
-Yield = @{"yield"}
-Break = @{"break"}
-Pass = @{"pass"}
+Return = @{"return" ~ !XID_CONTINUE}
+Yield = @{"yield" ~ !XID_CONTINUE}
+Break = @{"break" ~ !XID_CONTINUE}
+Pass = @{"pass" ~ !XID_CONTINUE}
 /*====================================================================================================================*/
 ///#C678DD
-Type = @{"type"}
+Type = @{"type" ~ !XID_CONTINUE}
 /*====================================================================================================================*/
 classStatement = {"class" ~ assign_pair ~ short_block?}
 traitStatement = {"trait" ~ assign_pair ~ short_block?}
@@ -168,7 +168,7 @@ SYMBOL = @{
 }
 /*====================================================================================================================*/
 ///#D19A66
-Special  = @{"null"|"true"|"false"}
+Special  = @{("null"|"true"|"false") ~ !XID_CONTINUE}
 Slot     = ${"##" ~ Positive?|"#" ~ (SYMBOL|Integer)?}
 REPL     = @{"¶" ~ Positive|"¶"+| "⁋" ~ Positive|"⁋"+}
 Positive = @{ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 148cd43..caa1e10 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -230,7 +230,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn As(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::As, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("as")))
+                    state.rule(Rule::As, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("as").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -265,27 +265,27 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Return(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Return, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("return")))
+                    state.rule(Rule::Return, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("return").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Yield(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Yield, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("yield")))
+                    state.rule(Rule::Yield, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("yield").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Break(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Break, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("break")))
+                    state.rule(Rule::Break, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("break").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Pass(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Pass, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("pass")))
+                    state.rule(Rule::Pass, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("pass").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Type(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Type, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("type")))
+                    state.rule(Rule::Type, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("type").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -545,7 +545,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Special(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false"))))
+                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false")).and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 51d9c00a13efa3fffef40826c4edcf52d132f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 11/40] fix: operators without a precedence entry dropped the
 rest of the expression (a = b, a == b, a % b, a // b)

---
 projects/sm-ast/src/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/mod.rs b/projects/sm-ast/src/parser/mod.rs
index 67a130a..f82d3dd 100644
--- a/projects/sm-ast/src/parser/mod.rs
+++ b/projects/sm-ast/src/parser/mod.rs
@@ -12,14 +12,25 @@ pub struct ParserSettings {
 
 /// Determines the associativity and priority of operators
 /// use Precedence in Mathematica
-pub const OPERATORS: &[(Rule, u32, Assoc); 7] = &[
+pub const OPERATORS: &[(Rule, u32, Assoc); 16] = &[
+    // set: a = b
+    (Rule::Set, 40, Assoc::Right),
+    // comparison: a == b
+    (Rule::Equal, 290, Assoc::Left),
+    (Rule::Grater, 290, Assoc::Left),
+    (Rule::GraterEqual, 290, Assoc::Left),
     // plus : a + b
     // minus: a - b
     (Rule::Plus, 310, Assoc::Left),
     (Rule::Minus, 310, Assoc::Left),
     //
     (Rule::Multiply, 400, Assoc::Left),
+    (Rule::CenterDot, 410, Assoc::Left),
+    (Rule::Kronecker, 420, Assoc::Left),
     (Rule::Divide, 470, Assoc::Left),
+    (Rule::Quotient, 470, Assoc::Left),
+    (Rule::Modulo, 470, Assoc::Left),
+    (Rule::TensorProduct, 520, Assoc::Left),
     //
     (Rule::Power, 590, Assoc::Right),
     // @
-- 
2.43.0


From b7a4f6941dd1748b5b6d342a2fe9ee76fc4a63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 12/40] fix: grammar: %%% comments put a token into the tree,
 which the AST builder panicked on or took for the end of the expression

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 2be9b42..474d32e 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -182,7 +182,7 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = ${ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+MultiLineComment = @{ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index caa1e10..bf936ed 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -575,7 +575,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::MultiLineComment, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
+                    state.rule(Rule::MultiLineComment, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 55a8ce2bf4b6450bef9d7f36b29bf9af31de3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 13/40] fix: grammar: numerals with leading zeros were read as
 products (007 as 0*0*7)

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 474d32e..6498556 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -147,7 +147,7 @@ Step = {expr}
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
 Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
-Integer = @{"0"|Positive}
+Integer = @{"0" ~ !ASCII_DIGIT|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
   | ^"0o" ~ (Underline? ~ ASCII_OCT_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index bf936ed..d2159d9 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -505,7 +505,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Integer(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Integer, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("0").or_else(|state| self::Positive(state))))
+                    state.rule(Rule::Integer, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("0").and_then(|state| state.lookahead(false, |state| self::ASCII_DIGIT(state)))).or_else(|state| self::Positive(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 1b030daa6dae2d9ec4e69301df8370115f914ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 14/40] fix: grammar: a prefixed string could not be a
 dictionary key

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 6498556..aeb94bc 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -133,7 +133,7 @@ data = ${dict|list|Special|REPL|Slot|Number|String|Symbol}
 dict = !{"{" ~ "}" | "{" ~ key_value ~ (Comma ~ key_value)* ~ Comma? ~ "}"}
 list = !{"[" ~ "]" | "[" ~ expr ~ (Comma ~ expr)* ~ Comma? ~ "]"}
 slice = !{"[" ~ index ~ (Comma ~ index)* ~ Comma? ~ "]"}
-key_valid =!{Integer | SYMBOL | String}
+key_valid =!{Integer | String | SYMBOL}
 key_value =!{key_valid ~ Colon ~ expr}
 index ={
     Start? ~ Colon ~ End? ~ Colon ~ Step?
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index d2159d9..1cba0de 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -465,7 +465,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn key_valid(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::key_valid, |state| self::Integer(state).or_else(|state| self::SYMBOL(state)).or_else(|state| state.restore_on_err(|state| self::String(state)))))
+                    state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::key_valid, |state| self::Integer(state).or_else(|state| state.restore_on_err(|state| self::String(state))).or_else(|state| self::SYMBOL(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 45cf4249d8720337897f70d156daf20fac65f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 15/40] =?UTF-8?q?fix:=20prefix=20operator=20=C2=AC=20made?=
 =?UTF-8?q?=20the=20AST=20builder=20panic?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 51dda46..228f20d 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -5,8 +5,8 @@ pub fn prefix_map(text: &str) -> Symbol {
         "+" => "plus",
         "-" => "minus",
         "*" => "unpack",
-        "!" => "not",
-        _ => unreachable!(),
+        "!" | "¬" => "not",
+        _ => text,
     };
     Symbol {
         name_space: vec![String::from("std"), String::from("prefix")],
-- 
2.43.0


From 4d6ab7233058cd70e1795a03cb186cfed1eeae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 16/40] fix: suffix operators ? and ' made the AST builder
 panic

---
 projects/sm-ast/src/parser/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 228f20d..b4323e4 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -20,7 +20,7 @@ pub fn suffix_map(text: &str) -> Symbol {
     let n = match text {
         "!" => "factorial",
         "!!" => "factorial2",
-        _ => unreachable!(),
+        _ => text,
     };
     Symbol {
         name_space: vec![String::from("std"), String::from("suffix")],
-- 
2.43.0


From 72d3a30444e87a4687717bcab8bc00c365d80730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 17/40] =?UTF-8?q?fix:=20=C3=97=20and=20=C3=B7=20did=20not?=
 =?UTF-8?q?=20denote=20the=20same=20operations=20as=20*=20and=20/?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index b4323e4..81ad6cc 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -34,8 +34,8 @@ pub fn infix_map(text: &str) -> Symbol {
     let (n, p) = match text {
         "+" => ("add", 80),
         "-" => ("subtract", 80),
-        "*" => ("times", 140),
-        "/" => ("divide", 140),
+        "*" | "×" => ("times", 140),
+        "/" | "÷" => ("divide", 140),
         "//" => ("quotient", 140),
         "^" => ("power", 150),
         _ => (text, 170),
-- 
2.43.0


From 130eaa85e921d00646284687fa014d64af3ef58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 18/40] fix: numbered slot sequences (##3) made the AST builder
 panic

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index df9e5df..5aeee76 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -344,7 +344,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
-                Rule::Integer => {
+                Rule::Integer | Rule::Positive => {
                     let i = BigInt::from_str(pair.as_str()).unwrap();
                     slot.push(AST::integer(i))
                 }
-- 
2.43.0


From 2e2e49275441eb9e7dc4cce83e50db1765c110bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 19/40] fix: products by juxtaposition with calls, decimals or
 bytes (2 f(x), 2.5x) made the AST builder panic

---
 projects/sm-ast/src/parser/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 5aeee76..259ed90 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -178,6 +178,15 @@ impl ParserSettings {
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
+                Rule::Decimal => {
+                    stack.push(self.parse_decimal(pair));
+                }
+                Rule::Byte => {
+                    stack.push(self.parse_byte(pair));
+                }
+                Rule::apply_call => {
+                    stack.push(self.parse_apply_call(pair));
+                }
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From a156ca0bb879e0c0e6026362515ba07b9f7bc6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 20/40] fix: bytes with an underscore after the prefix (0x_FF)
 made the AST builder panic

---
 projects/sm-ast/src/parser/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 259ed90..1c31737 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -373,7 +373,8 @@ impl ParserSettings {
             _ => unreachable!(),
         };
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
-        let i = BigInt::from_str_radix(&s[2..s.len()], base).unwrap();
+        let digits = &s[2..s.len()];
+        let i = BigInt::from_str_radix(digits.strip_prefix('_').unwrap_or(digits), base).unwrap();
         return AST::Integer(i);
     }
 
-- 
2.43.0


From caf5d29d4025ef3392909d85e1ab8564b23f9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 21/40] fix: null denoted the symbol `constant:Null` instead of
 Null of std::constant

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 1c31737..fd7fa17 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -392,7 +392,7 @@ impl ParserSettings {
 
     fn parse_special(&self, pairs: Pair<Rule>) -> AST {
         match pairs.as_str() {
-            "null" => AST::symbol("std::constant:Null"),
+            "null" => AST::symbol("std::constant::Null"),
             "true" => AST::Boolean(true),
             "false" => AST::Boolean(false),
             _ => unreachable!(),
-- 
2.43.0


From 57b71ddc38f10be6058f0c645f0b056b88a6e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 22/40] fix: dot calls on literals (a."s", a.true) made the AST
 builder panic

---
 projects/sm-ast/src/parser/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index fd7fa17..bd979ff 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -148,7 +148,10 @@ impl ParserSettings {
                 let p = Parameter { arguments: vec![lhs, AST::integer(i)], options: Default::default(), position: position.clone() };
                 AST::Function(s, vec![p])
             }
-            _ => unreachable!(),
+            rhs => {
+                let p = Parameter { arguments: vec![lhs, rhs], options: Default::default(), position: position.clone() };
+                AST::Function(infix_map("."), vec![p])
+            }
         };
     }
 
-- 
2.43.0


From c25c475d2e2f4d70be691ec6e579262bb6ce92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 23/40] fix: statements other than expressions (let, def, if,
 ;) made ParserSettings::parse panic

---
 projects/sm-ast/src/parser/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index bd979ff..797d332 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,7 +1,7 @@
 use crate::{
     ast::{Expression, Parameter, Position, Symbol},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
-    SMResult, ToWolfram, AST,
+    SMError, SMResult, ToWolfram, AST,
 };
 use bigdecimal::BigDecimal;
 use num::{BigInt, Num};
@@ -35,7 +35,8 @@ impl ParserSettings {
                     return Ok(self.parse_expression(pair).0);
                 }
                 Rule::COMMENT => continue,
-                _ => debug_cases!(pair),
+                Rule::emptyStatement => continue,
+                rule => return Err(SMError::Unimplemented(format!("{:?}", rule))),
             };
         }
         return Ok(AST::EmptyStatement);
-- 
2.43.0


From fc3c6f17659a87f99ba06795d7b28b2da1bc46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 24/40] =?UTF-8?q?fix:=20names=20qualified=20with=20?=
 =?UTF-8?q?=E2=88=B7=20were=20not=20split=20at=20the=20separator?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/ast/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 92a523f..c3f541d 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -66,7 +66,7 @@ impl Display for Position {
 
 impl From<&str> for Symbol {
     fn from(s: &str) -> Self {
-        let mut ns = s.split("::").map(String::from).collect_vec();
+        let mut ns = s.replace('∷', "::").split("::").map(String::from).collect_vec();
         let n = ns.pop().unwrap();
         Symbol { name_space: ns, name: n, kind: SymbolKind::Normal, attributes: 0 }
     }
-- 
2.43.0


From de31781f9e8c44059e5ecad781ef77a731676803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 25/40] fix: evaluate the sums that the parser builds (named
 "add")

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d508b1..a4416bb 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -61,7 +61,7 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
         "length" => internal::length(&args[0])?,
         "factorial" => internal::factorial(&args[0])?,
         "fibonacci" => internal::fibonacci(&args[0])?,
-        "plus" => evaluate_additive(&args, ctx)?,
+        "plus" | "add" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
         _ => {
-- 
2.43.0


From e2c06918fdeb48fb838f9a38da698558ec7ce6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 26/40] fix: a power with a negative or huge exponent is not
 its base

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index a4416bb..388a6bc 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -94,7 +94,7 @@ fn evaluate_multiplicative(vec: &[AST], _: &mut Context) -> S {
 fn evaluate_power(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
         [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u64() {
-            None => AST::Integer(lhs.clone()),
+            None => return Err(SMError::Unimplemented(unimplemented_function!())),
             Some(s) => AST::Integer(lhs.pow(s)),
         },
         _ => {
-- 
2.43.0


From 5175fc0d213d9838ec88de614745917814f04c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 27/40] fix: calling a function without arguments is an error,
 not a panic

---
 projects/sm-ast/src/evaluate/forward.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 388a6bc..41ecf40 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -55,6 +55,9 @@ impl AST {
 // }
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     let args = p.arguments;
+    if args.is_empty() {
+        return Err(SMError::Unimplemented(unimplemented_function!()));
+    }
     let out = match f.name.as_str() {
         "first" => internal::first(&args[0])?,
         "last" => internal::last(&args[0])?,
-- 
2.43.0


From 0e30d09fe9c21be338498a4cefaa609097ba8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 28/40] fix: evaluating a program is an error, not a panic

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 41ecf40..44b7827 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -10,7 +10,7 @@ impl AST {
     pub fn forward(&self, ctx: &mut Context) -> S {
         let out = match self {
             AST::EmptyStatement | AST::Boolean(..) | AST::Integer(..) | AST::Decimal(..) | AST::Symbol(..) | AST::String(..) => self.clone(),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(_) => return Err(SMError::Unimplemented(unimplemented_function!())),
             AST::Function(s, p) => match p.len() {
                 0 => AST::Symbol(s.clone()),
                 1 => evaluate_function(s, p[0].clone(), ctx)?,
-- 
2.43.0


From f319831a7502d248476b4fce1f0a17c19d6aba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 29/40] fix: unsupported operands of evaluated functions are
 errors, not panics

---
 projects/sm-ast/src/internal/elementary.rs | 6 +++---
 projects/sm-ast/src/internal/list_like.rs  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index 6ef050b..d0b5bc1 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::{factorial_i, fibonacci_i};
 
 pub fn sqrt(expr: &AST) -> SMResult<AST> {
@@ -64,7 +64,7 @@ pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -72,7 +72,7 @@ pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index d367693..1e65ec5 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -1,4 +1,4 @@
-use crate::{error::SMError::EmptyContainer, SMResult, AST};
+use crate::{error::SMError::EmptyContainer, SMError, SMResult, AST};
 
 pub fn head(expr: &AST) -> AST {
     match expr {
@@ -19,7 +19,7 @@ pub fn head(expr: &AST) -> AST {
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::String(s) => Ok(AST::integer(s.len())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -29,7 +29,7 @@ pub fn first(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `first` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -39,7 +39,7 @@ pub fn last(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `last` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
-- 
2.43.0


From 8bffab7d24f9323b859467a435f3b5f66dcb7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 30/40] fix: factorial and fibonacci of a decimal are not the
 decimal itself

---
 projects/sm-ast/src/internal/elementary.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index d0b5bc1..9712d36 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -63,7 +63,6 @@ pub fn log10(expr: &AST) -> SMResult<AST> {
 pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
@@ -71,7 +70,6 @@ pub fn factorial(expr: &AST) -> SMResult<AST> {
 pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 08f4d99c539f37b59b36dd8547a199eac143fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 31/40] fix: the length of a string counts its characters, as
 first and last do

---
 projects/sm-ast/src/internal/list_like.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index 1e65ec5..c6923b7 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -18,7 +18,7 @@ pub fn head(expr: &AST) -> AST {
 
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
-        AST::String(s) => Ok(AST::integer(s.len())),
+        AST::String(s) => Ok(AST::integer(s.chars().count())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From cfe5d8fed5c5307c921cd30a67d5ccc9e8039afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 32/40] fix: last without an output is an error, not a panic

---
 projects/sm-ast/src/evaluate/traits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..93a5614 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,9 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
-        Ok(o.clone())
+        match self.ctx.outputs.get(&self.ctx.index) {
+            Some(o) => Ok(o.clone()),
+            None => Err(SMError::EmptyContainer(String::from("No output to get the `last` of"))),
+        }
     }
 }
-- 
2.43.0


From 91e440a4cb74196f9f2e4bfff34b377d5edc5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 33/40] fix: printing an empty statement does not panic

---
 projects/sm-ast/src/ast/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index c3f541d..597ad7e 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -13,7 +13,7 @@ use std::{
 impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            AST::EmptyStatement => unimplemented!(),
+            AST::EmptyStatement => Ok(()),
             AST::Program(_) => unimplemented!(),
             AST::Function(s, ps) => {
                 match &s.kind {
-- 
2.43.0


From 14e0f8a329de83c200987c375ec752086b93c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:30 +0000
Subject: [PATCH 34/40] fix: operators are printed with the precedences they
 are read with ((a=b)+c, (a*b)/c)

---
 projects/sm-ast/src/parser/ops.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 81ad6cc..886162e 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -32,11 +32,18 @@ pub fn suffix_map(text: &str) -> Symbol {
 
 pub fn infix_map(text: &str) -> Symbol {
     let (n, p) = match text {
+        // same order as `OPERATORS`
+        "=" => (text, 40),
+        "==" | ">" | ">=" => (text, 70),
         "+" => ("add", 80),
         "-" => ("subtract", 80),
         "*" | "×" => ("times", 140),
-        "/" | "÷" => ("divide", 140),
-        "//" => ("quotient", 140),
+        "⋅" => (text, 141),
+        "⊗" => (text, 142),
+        "/" | "÷" => ("divide", 145),
+        "//" => ("quotient", 145),
+        "%" => (text, 145),
+        "⊙" => (text, 147),
         "^" => ("power", 150),
         _ => (text, 170),
     };
-- 
2.43.0


From 8e802db8d6d01aecbdf701fc50afdd9e7c9fe9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 35/40] fix: printed operators keep the grouping of their
 operands (a-(b-c), -(a+b), (-a)!)

---
 projects/sm-ast/src/ast/traits.rs | 49 +++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 597ad7e..198d390 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -21,14 +21,25 @@ impl Display for AST {
                     SymbolKind::Alias => unimplemented!(),
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{0}{1}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.is_infix_form() { write!(f, "{0}({1})", o, arg) } else { write!(f, "{0}{1}", o, arg) };
                         }
                     }
                     SymbolKind::Infix(o, p) => {
                         if is_multiary(ps) {
                             let mut v = vec![];
-                            for arg in &ps[0].arguments {
-                                if arg.precedence() < *p { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            let right = matches!(o.as_ref(), "=" | "^");
+                            for (i, arg) in ps[0].arguments.iter().enumerate() {
+                                let brackets = match arg.precedence() {
+                                    // grouped by the associativity of the operator
+                                    q if q == *p => (i == 0) == right,
+                                    q => q < *p,
+                                };
+                                if brackets { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            }
+                            // `a//!b` would be a comment
+                            if o.as_ref() == "//" {
+                                return write!(f, "{0}", v.join(" // "));
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
@@ -36,7 +47,13 @@ impl Display for AST {
                     }
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{1}{0}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.is_infix_form() || arg.is_prefix_form() || arg.is_suffix_form() {
+                                write!(f, "({1}){0}", o, arg)
+                            }
+                            else {
+                                write!(f, "{1}{0}", o, arg)
+                            };
                         }
                     }
                 }
@@ -106,13 +123,33 @@ impl AST {
         AST::String(s.into())
     }
     pub(crate) fn precedence(&self) -> u8 {
-        if let AST::Function(v, ..) = self {
+        if let AST::Function(v, ps) = self {
             if let SymbolKind::Infix(_, p) = v.kind {
-                return p;
+                if is_multiary(ps) {
+                    return p;
+                }
             }
         }
         return 255;
     }
+    /// printed as operands with operators between them
+    fn is_infix_form(&self) -> bool {
+        self.precedence() < 255
+    }
+    /// printed as an operand after an operator
+    fn is_prefix_form(&self) -> bool {
+        match self {
+            AST::Function(s, ps) => s.is_prefix() && is_unary(ps),
+            _ => false,
+        }
+    }
+    /// printed as an operand before an operator
+    fn is_suffix_form(&self) -> bool {
+        match self {
+            AST::Function(s, ps) => s.is_suffix() && is_unary(ps),
+            _ => false,
+        }
+    }
 }
 
 #[allow(dead_code)]
-- 
2.43.0


From 4bf7536f692862b9a43d073fbba11c3b42e8b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 36/40] fix: printing a call or a program does not panic, nor
 print nothing

---
 projects/sm-ast/src/ast/traits.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 198d390..96ff45d 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -14,11 +14,10 @@ impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
             AST::EmptyStatement => Ok(()),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(s) => write!(f, "{}", s.iter().join("; ")),
             AST::Function(s, ps) => {
                 match &s.kind {
-                    SymbolKind::Normal => unimplemented!(),
-                    SymbolKind::Alias => unimplemented!(),
+                    SymbolKind::Normal | SymbolKind::Alias => (),
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
                             let arg = &ps[0].arguments[0];
@@ -57,7 +56,8 @@ impl Display for AST {
                         }
                     }
                 }
-                write!(f, "")
+                // a call, or an operator that is called like a function
+                write!(f, "{}{}", s, ps.iter().join(""))
             }
             #[rustfmt::skip]
             AST::Boolean(b) => if *b { write!(f, "true") } else { write!(f, "false") },
@@ -69,6 +69,14 @@ impl Display for AST {
     }
 }
 
+impl Display for Parameter {
+    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+        let args = self.arguments.iter().map(|e| e.to_string());
+        let options = self.options.iter().map(|(k, v)| format!("{}: {}", k, v));
+        write!(f, "({})", args.chain(options).join(", "))
+    }
+}
+
 impl Display for Symbol {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         if self.name_space.len() == 0 { write!(f, "{}", self.name) } else { write!(f, "{}::{}", self.name_space.join("::"), self.name) }
-- 
2.43.0


From c5d9fea81af52a689168a0f3ca95db3720d7c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 37/40] fix: an opening \left( was closed by another \left in
 TeX

---
 projects/sm-ast/src/traits/tex/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 44f1474..6434265 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -35,7 +35,7 @@ pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
                 }
                 out.push_str(&format!("{}", args[0].to_tex()));
                 if max > 1 {
-                    out.push_str("\\left)");
+                    out.push_str("\\right)");
                 }
                 else {
                     out.push_str(")");
-- 
2.43.0


From 8679fc08231e2152eaeb79152a20e8944f07d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 38/40] fix: TeX of prefix and suffix operators, empty lists
 and programs panicked

---
 projects/sm-ast/src/traits/tex/mod.rs   | 12 +++++-------
 projects/sm-ast/src/traits/tex/utils.rs | 11 ++++++++++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index d7278b6..8031225 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -2,7 +2,7 @@ mod utils;
 
 use crate::{ast::Parameter, ToTex, AST};
 use itertools::Itertools;
-use utils::{infix_tex, omit_brackets_function};
+use utils::{infix_tex, omit_brackets_function, unary_tex};
 
 #[rustfmt::skip]
 pub trait BoxArea {
@@ -14,16 +14,15 @@ impl ToTex for AST {
     fn to_tex(&self) -> String {
         match (*self).clone() {
             AST::EmptyStatement => format!(""),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(s) => s.iter().map(AST::to_tex).join("; "),
             AST::Integer(i) => format!("{}", i),
             AST::Decimal(f) => format!("{}", f),
             AST::Symbol(s) => format!("{}", s.name),
             AST::String(s) => format!(r"\\text{{{}}}", s),
             AST::Function(s, p) => {
                 match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                    ["std", "prefix"] => unimplemented!(),
+                    ["std", "prefix"] | ["std", "suffix"] => return unary_tex(&s, &p[0]),
                     ["std", "infix"] => return infix_tex(&s, &p[0]),
-                    ["std", "suffix"] => unimplemented!(),
                     _ => (),
                 }
                 match s.name.as_ref() {
@@ -34,7 +33,7 @@ impl ToTex for AST {
                         format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
                     }
                     "List" => {
-                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap();
+                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(0);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
@@ -71,9 +70,8 @@ impl BoxArea for AST {
             AST::EmptyStatement => 0,
             AST::Program(_) => 1,
             AST::Function(s, p) => match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                ["std", "prefix"] => unimplemented!(),
+                ["std", "prefix"] | ["std", "suffix"] => 1 + p[0].width(),
                 ["std", "infix"] => p[0].arguments.len(),
-                ["std", "suffix"] => unimplemented!(),
                 _ => 1,
             },
             _ => 1,
diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 6434265..8bba52d 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -1,10 +1,19 @@
 use crate::{
-    ast::{Parameter, Symbol},
+    ast::{Parameter, Symbol, SymbolKind},
     traits::tex::BoxArea,
     ToTex,
 };
 use itertools::Itertools;
 
+pub(crate) fn unary_tex(s: &Symbol, p: &Parameter) -> String {
+    let arg = p.arguments[0].to_tex();
+    match &s.kind {
+        SymbolKind::Suffix(o) => format!("{}{}", arg, o),
+        SymbolKind::Prefix(o) => format!("{}{}", o, arg),
+        _ => format!("{} {}", s.name, arg),
+    }
+}
+
 pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
     let lhs = &p.arguments[0];
     let rhs = &p.arguments[1];
-- 
2.43.0


From adf567d41266fccf24d5bafe27027b3f6830ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:11 +0000
Subject: [PATCH 39/40] fix: TeX dropped operands, options and further lists of
 arguments

---
 projects/sm-ast/src/traits/tex/mod.rs   | 20 ++++++++++++--------
 projects/sm-ast/src/traits/tex/utils.rs | 11 +++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index 8031225..66d9ba9 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -2,7 +2,7 @@ mod utils;
 
 use crate::{ast::Parameter, ToTex, AST};
 use itertools::Itertools;
-use utils::{infix_tex, omit_brackets_function, unary_tex};
+use utils::{call_tex, infix_tex, omit_brackets_function, unary_tex};
 
 #[rustfmt::skip]
 pub trait BoxArea {
@@ -20,9 +20,14 @@ impl ToTex for AST {
             AST::Symbol(s) => format!("{}", s.name),
             AST::String(s) => format!(r"\\text{{{}}}", s),
             AST::Function(s, p) => {
+                // the notations below show one list of arguments without options
+                if p.len() != 1 || !p[0].options.is_empty() {
+                    return call_tex(&s, &p);
+                }
+                let n = p[0].arguments.len();
                 match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                    ["std", "prefix"] | ["std", "suffix"] => return unary_tex(&s, &p[0]),
-                    ["std", "infix"] => return infix_tex(&s, &p[0]),
+                    ["std", "prefix"] | ["std", "suffix"] if n == 1 => return unary_tex(&s, &p[0]),
+                    ["std", "infix"] if n > 1 => return infix_tex(&s, &p[0]),
                     _ => (),
                 }
                 match s.name.as_ref() {
@@ -37,10 +42,7 @@ impl ToTex for AST {
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
-                    _ => {
-                        let inner = p.iter().map(|e| e.to_tex()).collect_vec().join("");
-                        format!(r"\\operatorname{{{}}}{}", s.name, inner)
-                    }
+                    _ => call_tex(&s, &p),
                 }
             }
             #[rustfmt::skip]
@@ -51,7 +53,8 @@ impl ToTex for AST {
 
 impl ToTex for Parameter {
     fn to_tex(&self) -> String {
-        let terms = self.arguments.iter().map(|e| e.to_tex()).collect_vec().join(", ");
+        let options = self.options.iter().map(|(k, v)| format!("{}: {}", k.to_tex(), v.to_tex()));
+        let terms = self.arguments.iter().map(|e| e.to_tex()).chain(options).collect_vec().join(", ");
         format!(r"\\left({}\\right)", terms)
     }
 }
@@ -69,6 +72,7 @@ impl BoxArea for AST {
         match self {
             AST::EmptyStatement => 0,
             AST::Program(_) => 1,
+            AST::Function(_, p) if p.len() != 1 => 1,
             AST::Function(s, p) => match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
                 ["std", "prefix"] | ["std", "suffix"] => 1 + p[0].width(),
                 ["std", "infix"] => p[0].arguments.len(),
diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 8bba52d..b0b31ca 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -15,14 +15,17 @@ pub(crate) fn unary_tex(s: &Symbol, p: &Parameter) -> String {
 }
 
 pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
-    let lhs = &p.arguments[0];
-    let rhs = &p.arguments[1];
     let ops = match s.name.as_str() {
         "add" => "+",
-        "times" => return format!("{} {}", lhs, rhs),
+        "times" => return p.arguments.iter().join(" "),
         _ => &s.name,
     };
-    format!("{} {} {}", lhs, ops, rhs)
+    p.arguments.iter().join(&format!(" {} ", ops))
+}
+
+pub(crate) fn call_tex(s: &Symbol, p: &[Parameter]) -> String {
+    let inner = p.iter().map(|e| e.to_tex()).collect_vec().join("");
+    format!(r"\\operatorname{{{}}}{}", s.name, inner)
 }
 
 pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
-- 
2.43.0


From 047e63c5883afb17ffb51d29de76cfb0631c4650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 40/40] fix: a negative number before a suffix operator is
 printed in parentheses ((-3)!)

---
 projects/sm-ast/src/ast/traits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 96ff45d..af36480 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use bigdecimal::BigDecimal;
 use itertools::Itertools;
-use num::{BigInt, One, Zero};
+use num::{BigInt, One, Signed, Zero};
 use std::{
     fmt,
     fmt::{Display, Formatter},
@@ -144,9 +144,11 @@ impl AST {
     fn is_infix_form(&self) -> bool {
         self.precedence() < 255
     }
-    /// printed as an operand after an operator
+    /// printed as an operand after an operator, or after a sign
     fn is_prefix_form(&self) -> bool {
         match self {
+            AST::Integer(n) => n.is_negative(),
+            AST::Decimal(n) => n.is_negative(),
             AST::Function(s, ps) => s.is_prefix() && is_unary(ps),
             _ => false,
         }
-- 
2.43.0

