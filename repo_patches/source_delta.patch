From a1d26d3be37beae53eb8e0a1c96dc956730f1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 01/21] hook: expose the update parser to verification
 harnesses under cfg(nom_sparql_verif)

---
 src/lib.rs | 76 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84d5e83..d5c262b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,33 +1,43 @@
-//#![deny(missing_docs)]
-
-#![allow(unused)]
-
-#[macro_use]
-extern crate derive_new;
-
-/// https://www.obitko.com/tutorials/ontologies-semantic-web/rdf-query-language-sparql.html
-pub mod aggregate;
-pub mod arithmetic;
-pub mod call;
-pub mod clauses;
-pub mod data;
-pub mod expression;
-pub mod graph;
-pub mod group;
-pub mod literal;
-pub mod node;
-pub mod operations;
-pub mod order;
-pub mod parser;
-pub mod path;
-pub mod prologue;
-pub mod quads;
-pub mod query;
-pub mod read;
-pub mod terminals;
-pub mod triple;
-pub mod update;
-pub mod var;
-pub mod write;
-
-pub mod mimes {}
+//#![deny(missing_docs)]
+
+#![allow(unused)]
+#![allow(unexpected_cfgs)]
+
+#[macro_use]
+extern crate derive_new;
+
+/// https://www.obitko.com/tutorials/ontologies-semantic-web/rdf-query-language-sparql.html
+pub mod aggregate;
+pub mod arithmetic;
+pub mod call;
+pub mod clauses;
+pub mod data;
+pub mod expression;
+pub mod graph;
+pub mod group;
+pub mod literal;
+pub mod node;
+pub mod operations;
+pub mod order;
+pub mod parser;
+pub mod path;
+pub mod prologue;
+pub mod quads;
+pub mod query;
+pub mod read;
+pub mod terminals;
+pub mod triple;
+pub mod update;
+pub mod var;
+pub mod write;
+
+pub mod mimes {}
+
+/// Access for verification harnesses to the update request parser.
+/// Only compiled with `--cfg nom_sparql_verif`; not part of the public API.
+#[cfg(nom_sparql_verif)]
+pub mod verif {
+    pub fn update(i: &str) -> nom::IResult<&str, crate::update::Update> {
+        crate::update::update(i)
+    }
+}
-- 
2.43.0


From 17883a166987c96caa355fd5a97f5f8cf092bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 02/21] fix: no blanks inside prefixed names, variables and
 blank node labels

---
 src/graph.rs     | 2 +-
 src/terminals.rs | 4 ++--
 src/var.rs       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..f1c8761 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -262,7 +262,7 @@ pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
 pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
     alt((
         map(
-            sp_sep(
+            pair(
                 tag("_:"),
                 recognize(pair(
                     alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..5c00e6e 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -313,11 +313,11 @@ pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
 }
 
 pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+    pair(pname_ns, map(pn_local, String::from))(i)
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..2820ee9 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -73,11 +73,11 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
         map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
+            preceded(char('?'), map(var_name, String::from)),
             Var::QMark,
         ),
         map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
         ),
     ))(i)
-- 
2.43.0


From 836e3b01dfa7c76e16b1ee14e11f160c1e79b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/21] fix: a dot at the end of a name is not part of the name

---
 src/terminals.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 5c00e6e..879fa3e 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -266,10 +266,7 @@ pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
 #[inline]
 pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
     // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
+    recognize(many0(pair(take_while(|c| c == '.'), pn_chars1)))(i)
 }
 
 fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
@@ -298,13 +295,10 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
             take_while_m_n(1, 1, |c| is_digit(c as u8)),
             plx,
         )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
-        )),
+        recognize(many0(pair(
+            take_while(|c| c == '.'),
+            alt((take_while1(|c| is_pn_char(c) || c == ':'), plx)),
+        ))),
     ))(i)
 }
 
-- 
2.43.0


From 8b9dbd3c3326f8aa578c8e834f074bc8c163766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 04/21] fix: classify characters by their full code point

---
 src/clauses.rs   |  2 +-
 src/graph.rs     |  5 ++++-
 src/terminals.rs | 17 +++++++++++++----
 src/var.rs       |  4 ++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..802b7c4 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -120,7 +120,7 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/graph.rs b/src/graph.rs
index f1c8761..85a0443 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -265,7 +265,10 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             pair(
                 tag("_:"),
                 recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    alt((
+                        pn_chars_u_one,
+                        take_while_m_n(1, 1, |c: char| c.is_ascii_digit())
+                    )),
                     pn_chars_tail,
                 )),
             ),
diff --git a/src/terminals.rs b/src/terminals.rs
index 879fa3e..e29d505 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -225,7 +225,7 @@ pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
             if chrs.contains(c) {
                 false
             } else {
-                c as u8 > 0x20
+                c > ' '
             }
         }),
         tag(">"),
@@ -292,7 +292,7 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
         alt((
             pn_chars_u_one,
             tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
             plx,
         )),
         recognize(many0(pair(
@@ -332,6 +332,15 @@ pub(crate) fn is_unicode(c: char) -> bool {
         '\u{3001}'..='\u{D7FF}' => true,
         '\u{F900}'..='\u{FDCF}' => true,
         '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
+        _ => false,
+    }
+}
+
+/// characters that may not begin a name but may continue it
+pub(crate) fn is_name_extender(c: char) -> bool {
+    match c {
+        '\u{00B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}' => true,
         _ => false,
     }
 }
@@ -355,7 +364,7 @@ pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
 
 #[inline]
 pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
+    i.is_ascii_alphabetic() || is_unicode(i)
 }
 
 #[inline]
@@ -385,7 +394,7 @@ pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
 
 #[inline]
 pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_name_extender(i)
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index 2820ee9..e6986dc 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
@@ -104,7 +104,7 @@ pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpression
 pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
     ))(i)
 }
 
-- 
2.43.0


From 9718c4439571de86afd4ed5edcf0cf95ea60c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 05/21] fix: keywords end at a word boundary and need no blank
 after them

---
 src/aggregate.rs       |  4 ++--
 src/arithmetic.rs      |  4 ++--
 src/call.rs            |  6 +++---
 src/clauses.rs         |  9 +++++----
 src/data.rs            |  3 ++-
 src/expression/iri.rs  |  2 +-
 src/expression/mod.rs  |  9 +++++----
 src/graph.rs           | 15 ++++++++-------
 src/group.rs           |  5 +++--
 src/literal.rs         |  3 ++-
 src/operations.rs      | 29 +++++++++++++++--------------
 src/order.rs           |  6 +++---
 src/parser.rs          |  2 +-
 src/path.rs            | 10 +++++-----
 src/quads.rs           |  3 ++-
 src/query/ask.rs       |  4 ++--
 src/query/construct.rs |  6 +++---
 src/query/describe.rs  |  6 +++---
 src/query/select.rs    |  9 +++++----
 src/terminals.rs       | 24 +++++++++++++++++++++---
 src/triple.rs          |  4 ++--
 src/var.rs             |  3 ++-
 22 files changed, 97 insertions(+), 69 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..b005931 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -5,13 +5,13 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{pair, preceded, terminated, tuple},
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum Aggregate {
     Count(Count),
@@ -94,7 +94,7 @@ pub(crate) fn count(i: &str) -> IResult<&str, Count> {
         preceded_tag(
             "count",
             bracketted(pair(
-                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                 count_target,
             )),
         ),
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..11eb005 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -5,7 +5,7 @@ use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
@@ -177,7 +177,7 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
             preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
+                terminated(tag_no_case("not"), sp_enc(tag_no_case("in"))),
                 expression_list,
             ),
             OpExpression::NIN,
diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..a2d511b 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,6 +1,5 @@
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -8,6 +7,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::expression::functions::{
     regex_expression, str_replace_expression, substring_expression, RegexExpression,
     StrReplaceExpression, SubstringExpression,
@@ -285,7 +285,7 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
         map(
             tuple((
                 tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
+                sp_enc(tag_no_case("exists")),
                 group_graph_pattern,
             )),
             |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
@@ -300,7 +300,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
             delimited(
                 terminated(char('('), sp),
                 tuple((
-                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                    map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
                 char(')'),
diff --git a/src/clauses.rs b/src/clauses.rs
index 802b7c4..dbb481d 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -10,6 +10,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::expression::functions::{constraint, Constraint};
 use crate::{
     data::{datablock, DataBlock},
@@ -71,7 +72,7 @@ pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
 pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
+            terminated(delimited(tag_no_case("order"), sp, tag_no_case("by")), sp),
             separated_nonempty_list(sp, order_condition),
         ),
         OrderClause,
@@ -81,7 +82,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
-            terminated(tag_no_case("having"), sp1),
+            terminated(tag_no_case("having"), sp),
             separated_nonempty_list(sp, constraint),
         ),
         HavingClause,
@@ -90,7 +91,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
 
 pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
     preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
+        opt(terminated(tag_no_case("where"), sp)),
         group_graph_pattern,
     )(i)
 }
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..b420a0e 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::map,
     multi::{many0, many1, separated_list, separated_nonempty_list},
@@ -8,6 +8,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::{
     expression::{DefaultOrNamedIri, Iri},
     literal::{boolean, numeric_literal, NumericLiteral},
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..5f1e65f 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
 use crate::terminals::iri;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..b583f3f 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -8,12 +8,13 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::{
     arithmetic::{conditional_and_expression, ConditionalAndExpression},
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
+    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp_enc},
 };
 
 use crate::var::{var, Var};
@@ -126,7 +127,7 @@ pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt
     delimited(
         char('('),
         sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),
             |(expression, var)| ExpressionAsVarOpt {
                 expression: Box::new(expression),
                 var,
@@ -181,7 +182,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
 pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
     map(
         pair(
-            map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+            map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
             expression,
         ),
         |(distinct, expression)| DistinctExpression {
diff --git a/src/graph.rs b/src/graph.rs
index 85a0443..2080682 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -9,6 +9,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::expression::functions::{filter, Constraint};
 use crate::{
     data::inline_data,
@@ -123,14 +124,14 @@ pub struct ServiceGraphPattern {
 }
 
 pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
-    map(sp_sep1(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
+    map(sp_sep(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
 }
 
 pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
     alt((
         map(tag_no_case("default"), |_| GraphOrDefault::Default),
         map(
-            pair(opt(pair(tag_no_case("graph"), sp1)), iri),
+            pair(opt(pair(tag_no_case("graph"), sp)), iri),
             |(_, iri)| GraphOrDefault::Graph(iri),
         ),
     ))(i)
@@ -166,7 +167,7 @@ pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNo
 
 pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
     map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
         GroupOrUnionGraphPattern,
     )(i)
 }
@@ -180,7 +181,7 @@ pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
 pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("graph"), sp1),
+            terminated(tag_no_case("graph"), sp),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
@@ -221,8 +222,8 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
 pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("service"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            terminated(tag_no_case("service"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
diff --git a/src/group.rs b/src/group.rs
index f759ccc..701f4af 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -3,13 +3,14 @@ use nom::multi::separated_nonempty_list;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
 
 use crate::expression::{
@@ -33,7 +34,7 @@ pub enum GroupCondition {
 pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
+            terminated(delimited(tag_no_case("group"), sp, tag_no_case("by")), sp),
             separated_nonempty_list(sp, group_condition),
         ),
         GroupClause,
diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..c7a956c 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -3,7 +3,7 @@ use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::{
         complete::{char, digit1},
         is_digit,
@@ -14,6 +14,7 @@ use nom::{
     Err, IResult, ParseTo,
 };
 
+use crate::terminals::tag_no_case;
 use crate::arithmetic::Sign;
 use crate::terminals::{language_tag, rdf_literal, string_literal};
 
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..2c0139b 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -10,6 +10,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::{
     clauses::{delete_clause, insert_clause, using_clause},
     expression::{DefaultOrNamedIri, Iri},
@@ -87,7 +88,7 @@ pub enum DeleteInsert {
 
 pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
     map(
-        pair(pair(tag_no_case("add"), sp1), silent_from_to),
+        pair(pair(tag_no_case("add"), sp), silent_from_to),
         |(_, (silent, from, to))| AddStatement { silent, from, to },
     )(i)
 }
@@ -95,10 +96,10 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
+            opt(delimited(tag_no_case("where"), iri, sp)),
             terminated(delete_insert, sp),
             separated_list(sp, using_clause),
-            sp_enc1(tag_no_case("where")),
+            sp_enc(tag_no_case("where")),
             group_graph_pattern,
         )),
         |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
@@ -112,21 +113,21 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
 
 pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
     map(
-        pair(pair(tag_no_case("move"), sp1), silent_from_to),
+        pair(pair(tag_no_case("move"), sp), silent_from_to),
         |(_, (silent, from, to))| MoveStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
     map(
-        pair(pair(tag_no_case("copy"), sp1), silent_from_to),
+        pair(pair(tag_no_case("copy"), sp), silent_from_to),
         |(_, (silent, from, to))| CopyStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
     tuple((
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_or_default,
         preceded(sp_enc(tag_no_case("to")), graph_or_default),
     ))(i)
@@ -135,8 +136,8 @@ pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, Gr
 pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
     map(
         tuple((
-            pair(tag_no_case("create"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("create"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             graph_ref,
         )),
         |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
@@ -145,7 +146,7 @@ pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
 
 pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
     map(
-        pair(pair(tag_no_case("drop"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("drop"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| DropStatement {
             silent,
             graph_ref_all,
@@ -155,7 +156,7 @@ pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
 
 pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
     map(
-        pair(pair(tag_no_case("clear"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("clear"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| ClearStatement {
             silent,
             graph_ref_all,
@@ -165,7 +166,7 @@ pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
 
 pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
     pair(
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_ref_all,
     )(i)
 }
@@ -173,8 +174,8 @@ pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)
 pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
     map(
         tuple((
-            pair(tag_no_case("load"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("load"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             iri,
             opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
         )),
diff --git a/src/order.rs b/src/order.rs
index bed59ae..8293a04 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,12 +1,12 @@
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::sp1;
+use crate::terminals::sp;
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -37,7 +37,7 @@ pub(crate) fn order(i: &str) -> IResult<&str, Order> {
 
 pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
     map(
-        separated_pair(order, sp1, bracketted_expression),
+        separated_pair(order, sp, bracketted_expression),
         |(order, expression)| OrderExpression { order, expression },
     )(i)
 }
diff --git a/src/parser.rs b/src/parser.rs
index 4ad7263..a36352c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -15,7 +15,7 @@ pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
         tuple((
             terminated(prologue, sp),
             sparql_query,
-            opt(preceded(sp1, preceded_tag1("values", datablock))),
+            opt(preceded(sp, preceded_tag1("values", datablock))),
         )),
         |(prologue, query, values)| SparqlQueryStatement {
             prologue,
diff --git a/src/path.rs b/src/path.rs
index 437a410..a7c467d 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -8,7 +8,7 @@ use nom::sequence::{delimited, pair, separated_pair, tuple};
 use nom::Err;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
@@ -125,7 +125,7 @@ pub struct PathOneInPropertySet(pub IriOrAOrCaret);
 pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
     alt((
         map(
-            sp_sep1(var_or_term, property_list_path_not_empty),
+            sp_sep(var_or_term, property_list_path_not_empty),
             |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
                 var_or_term,
                 property_list,
@@ -152,7 +152,7 @@ pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyLi
 pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
     map(
         tuple((
-            terminated(verb_path_or_simple, sp1),
+            terminated(verb_path_or_simple, sp),
             object_list_path,
             many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
         )),
@@ -184,7 +184,7 @@ pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
 
 pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
     map(
-        separated_pair(verb_path_or_simple, sp1, object_list),
+        separated_pair(verb_path_or_simple, sp, object_list),
         |(verb_path_or_simple, object_list)| PropertyListPathEntry {
             verb_path_or_simple,
             object_list,
@@ -250,7 +250,7 @@ pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
 
 pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
     map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
+        pair(path_primary, opt(preceded(sp, path_mod))),
         |(path_primary, path_mod)| PathElt {
             path_primary,
             path_mod,
diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..285bc1b 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
@@ -11,6 +11,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 use crate::{
     expression::ArgList,
     graph::graph_node,
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..ebbedf5 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -2,7 +2,7 @@ use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
 use crate::terminals::{sp, sp1};
-use nom::bytes::complete::tag_no_case;
+use crate::terminals::tag_no_case;
 use nom::combinator::map;
 use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
@@ -18,7 +18,7 @@ pub struct AskQuery {
 pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
-            terminated(tag_no_case("ask"), sp1),
+            terminated(tag_no_case("ask"), sp),
             terminated(separated_list(sp, data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..d5af9b8 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -9,7 +9,6 @@ use crate::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many1,
@@ -19,6 +18,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum ConstructQuery {
     SubConstruct(SubConstruct),
@@ -47,7 +47,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
             terminated(separated_list(sp, data_set_clause), sp),
-            terminated(tag_no_case("where"), sp1),
+            terminated(tag_no_case("where"), sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
         )),
@@ -62,7 +62,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
 pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
-            terminated(construct_template, sp1),
+            terminated(construct_template, sp),
             terminated(separated_list(sp, data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..bd46784 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,11 +1,10 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
+use crate::terminals::{sp, sp_enc};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::{separated_list, separated_nonempty_list},
@@ -13,6 +12,7 @@ use nom::{
     IResult,
 };
 
+use crate::terminals::tag_no_case;
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub struct DescribeQuery {
     pub dataset_clauses: Vec<DataSetClause>,
@@ -25,7 +25,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
     map(
         tuple((
             tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
+            sp_enc(var_or_iris_or_all),
             terminated(separated_list(sp, data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..c837de9 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,5 +1,6 @@
+use crate::terminals::tag_no_case;
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
 use nom::multi::{many1, separated_list};
@@ -53,7 +54,7 @@ pub enum SelectModifier {
 pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
-            terminated(select_clause, sp1),
+            terminated(select_clause, sp),
             separated_list(sp, data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
@@ -88,8 +89,8 @@ pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
     map(
         tuple((
             tag_no_case("select"),
-            opt(preceded(sp1, select_modifier)),
-            preceded(sp1, select_vars),
+            opt(preceded(sp, select_modifier)),
+            preceded(sp, select_vars),
         )),
         |(_, modifier, vars)| SelectClause { modifier, vars },
     )(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index e29d505..8c175bc 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
     character::{
         complete::{alpha1, alphanumeric1},
@@ -29,6 +29,24 @@ use crate::{
     var::{Var, VarOrIri, VarOrTerm, VerbList},
 };
 
+/// Recognizes `tag` in any ASCII letter case. A word only matches if it is not
+/// the beginning of a longer word or of a prefixed name.
+#[inline]
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |i: &'a str| match i.get(..tag.len()) {
+        Some(found) if found.eq_ignore_ascii_case(tag) => {
+            let rest = &i[tag.len()..];
+            let is_word = |c: char| is_pn_chars_u(c) || c.is_ascii_digit();
+            if tag.ends_with(is_word) && (rest.starts_with(is_word) || pname_ns(i).is_ok()) {
+                Err(Err::Error((i, ErrorKind::Tag)))
+            } else {
+                Ok((rest, found))
+            }
+        }
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
@@ -56,7 +74,7 @@ pub(crate) fn preceded_tag1<'a, O1, F>(
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    preceded(terminated(tag_no_case(tag), sp1), pat)
+    preceded(terminated(tag_no_case(tag), sp), pat)
 }
 
 #[inline]
@@ -190,7 +208,7 @@ pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
 }
 
 pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
-    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
+    preceded(terminated(tag_no_case("base"), sp), iri_ref)(i)
 }
 
 pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
diff --git a/src/triple.rs b/src/triple.rs
index 7ce8f5e..d5841e6 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
@@ -113,7 +113,7 @@ pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject>
             },
         ),
         map(
-            sp_sep1(var_or_term, property_list_not_empty),
+            sp_sep(var_or_term, property_list_not_empty),
             |(var_or_term, property_list)| TriplesSameSubject::Term {
                 var_or_term,
                 property_list,
diff --git a/src/var.rs b/src/var.rs
index e6986dc..ba69e32 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,10 +1,11 @@
+use crate::terminals::tag_no_case;
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
 use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-- 
2.43.0


From a559db214132f68f4f8c4ff46caf0e98ae1dec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 06/21] fix: blanks and comments are allowed between any two
 tokens

---
 src/call.rs           |  2 +-
 src/expression/mod.rs |  6 +-----
 src/terminals.rs      | 14 +++++++-------
 3 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index a2d511b..e5fba42 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -303,7 +303,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
                     map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             |(distinct, expressions)| ArgList::Expression {
                 distinct,
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index b583f3f..c4bb553 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -169,11 +169,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
     alt((
         map(nil, |_| ExpressionList::Nil),
         map(
-            delimited(
-                char('('),
-                separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
-            ),
+            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
             ExpressionList::List,
         ),
     ))(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index 8c175bc..3d7efde 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -63,7 +63,7 @@ pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a s
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    delimited(char('('), pat, char(')'))
+    delimited(terminated(char('('), sp), pat, preceded(sp, char(')')))
 }
 
 #[inline]
@@ -99,9 +99,9 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(preceded(char('#'), many0(none_of("\n\r")))),
-        one_of("\r\n"),
+    alt((
+        recognize(pair(char('#'), take_while(|c| c != '\n' && c != '\r'))),
+        recognize(one_of("\r\n")),
     ))(i)
 }
 
@@ -224,13 +224,13 @@ pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
 
 pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
     map(
-        separated_list(
-            sp1,
+        many0(preceded(
+            sp,
             alt((
                 map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
                 map(prefix_decl, BaseOrPrefixDecl::Prefix),
             )),
-        ),
+        )),
         Prologue,
     )(i)
 }
-- 
2.43.0


From 721a22cfa28c3a66d41e9e9770b951bb1aed3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 07/21] fix: read lists whose items need no blank between them

---
 src/arithmetic.rs      | 8 ++++----
 src/clauses.rs         | 6 +++---
 src/graph.rs           | 4 ++--
 src/group.rs           | 4 ++--
 src/operations.rs      | 4 ++--
 src/query/ask.rs       | 6 +++---
 src/query/construct.rs | 6 +++---
 src/query/describe.rs  | 6 +++---
 src/query/select.rs    | 6 +++---
 src/var.rs             | 4 ++--
 10 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 11eb005..b34c007 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -7,7 +7,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use crate::terminals::tag_no_case;
 use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
 
@@ -120,7 +120,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            many0(preceded(sp, add_expression)),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -139,7 +139,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         map(
             pair(
                 numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
+                many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
@@ -153,7 +153,7 @@ pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, Multiplicative
     map(
         pair(
             unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
+            many0(preceded(sp, mult_expression)),
         ),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
diff --git a/src/clauses.rs b/src/clauses.rs
index dbb481d..fc4811c 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_nonempty_list,
+    multi::many1,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -73,7 +73,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("order"), sp, tag_no_case("by")), sp),
-            separated_nonempty_list(sp, order_condition),
+            many1(preceded(sp, order_condition)),
         ),
         OrderClause,
     )(i)
@@ -83,7 +83,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
             terminated(tag_no_case("having"), sp),
-            separated_nonempty_list(sp, constraint),
+            many1(preceded(sp, constraint)),
         ),
         HavingClause,
     )(i)
diff --git a/src/graph.rs b/src/graph.rs
index 2080682..7126089 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -31,7 +31,7 @@ use crate::{
 };
 use nom::character::complete::char;
 use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::tuple;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -196,7 +196,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            many0(preceded(sp, group_graph_pattern_and_triples)),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
diff --git a/src/group.rs b/src/group.rs
index 701f4af..e8aa995 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -1,5 +1,5 @@
 use nom::combinator::map;
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
@@ -35,7 +35,7 @@ pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("group"), sp, tag_no_case("by")), sp),
-            separated_nonempty_list(sp, group_condition),
+            many1(preceded(sp, group_condition)),
         ),
         GroupClause,
     )(i)
diff --git a/src/operations.rs b/src/operations.rs
index 2c0139b..04aee05 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -4,7 +4,7 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_list,
+    multi::many0,
     sequence::{delimited, pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -98,7 +98,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
         tuple((
             opt(delimited(tag_no_case("where"), iri, sp)),
             terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
+            many0(preceded(sp, using_clause)),
             sp_enc(tag_no_case("where")),
             group_graph_pattern,
         )),
diff --git a/src/query/ask.rs b/src/query/ask.rs
index ebbedf5..be2391d 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -4,8 +4,8 @@ use crate::graph::GroupGraphPattern;
 use crate::terminals::{sp, sp1};
 use crate::terminals::tag_no_case;
 use nom::combinator::map;
-use nom::multi::separated_list;
-use nom::sequence::{terminated, tuple};
+use nom::multi::many0;
+use nom::sequence::{preceded, terminated, tuple};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -19,7 +19,7 @@ pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
             terminated(tag_no_case("ask"), sp),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index d5af9b8..40126a0 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -11,7 +11,7 @@ use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    multi::many1,
+    multi::{many0, many1},
     multi::separated_list,
     sequence::{delimited, preceded},
     sequence::{terminated, tuple},
@@ -46,7 +46,7 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(tag_no_case("where"), sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
@@ -63,7 +63,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
             terminated(construct_template, sp),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index bd46784..aa30814 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -7,8 +7,8 @@ use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
-    sequence::{terminated, tuple},
+    multi::many0,
+    sequence::{preceded, terminated, tuple},
     IResult,
 };
 
@@ -26,7 +26,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
         tuple((
             tag_no_case("describe"),
             sp_enc(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(many0(preceded(sp, data_set_clause)), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/query/select.rs b/src/query/select.rs
index c837de9..69ab086 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -3,7 +3,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
+use nom::multi::{many0, many1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::IResult;
 
@@ -55,7 +55,7 @@ pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
             terminated(select_clause, sp),
-            separated_list(sp, data_set_clause),
+            many0(preceded(sp, data_set_clause)),
             sp_enc(where_clause),
             solution_modifier,
         )),
@@ -100,7 +100,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
     alt((
         map(char('*'), |_| SelectVars::All),
         map(
-            many1(var_or_expression_as_var),
+            many1(preceded(sp, var_or_expression_as_var)),
             SelectVars::VarOrExpressionAsVar,
         ),
     ))(i)
diff --git a/src/var.rs b/src/var.rs
index ba69e32..b7ac427 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -9,7 +9,7 @@ use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::separated_nonempty_list;
+use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::{AsChar, IResult};
 
@@ -87,7 +87,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
         map(
-            separated_nonempty_list(sp, var_or_iri),
+            many1(preceded(sp, var_or_iri)),
             VarOrIrisOrAll::VarIri,
         ),
         map(char('*'), |_| VarOrIrisOrAll::All),
-- 
2.43.0


From 5246ec86e6668694608b6a1bf5d4e79b6c9c693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 08/21] fix: dots after triples and after other patterns

---
 src/graph.rs           | 2 +-
 src/quads.rs           | 8 ++++++--
 src/query/construct.rs | 7 +++----
 src/triple.rs          | 5 ++++-
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 7126089..4d5d482 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -209,7 +209,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, char('.'))),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/quads.rs b/src/quads.rs
index 285bc1b..1444f31 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -50,7 +50,7 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        pair(opt(terminated(triples_template, sp)), many0(preceded(sp, quads_entry))),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
@@ -74,7 +74,11 @@ pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
 
 pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, triples_template)),
+        ),
         |(quads_not_triples, triples_template)| QuadsEntry {
             quads_not_triples,
             triples_template,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 40126a0..f911924 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -11,8 +11,7 @@ use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    multi::{many0, many1},
-    multi::separated_list,
+    multi::many0,
     sequence::{delimited, preceded},
     sequence::{terminated, tuple},
     IResult,
@@ -90,9 +89,9 @@ pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
     map(
         delimited(
             terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            opt(triples_template),
             preceded(sp, char('}')),
         ),
-        ConstructTemplate,
+        |triples| ConstructTemplate(triples.unwrap_or_default()),
     )(i)
 }
diff --git a/src/triple.rs b/src/triple.rs
index d5841e6..e108ca9 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -91,7 +91,10 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        terminated(
+            separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+            opt(preceded(sp, char('.'))),
+        ),
         TriplesBlock,
     )(i)
 }
-- 
2.43.0


From 6a3d85892cd62a3d06c2bec9a6fdc82beeb7a040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 09/21] fix: object lists, trailing semicolons and collections
 in patterns

---
 src/path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index a7c467d..4298f69 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -18,7 +18,7 @@ use nom::{
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::node::ObjectList;
-use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{anon, bracketted, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
 
@@ -155,8 +155,9 @@ pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyLis
             terminated(verb_path_or_simple, sp),
             object_list_path,
             many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            many0(preceded(sp, char(';'))),
         )),
-        |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
+        |(verb_path_or_simple, object_list_path, entries, _)| PropertyListPath {
             verb_path_or_simple,
             object_list_path,
             entries,
@@ -177,7 +178,7 @@ pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
 
 pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
     map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
         ObjectListPath,
     )(i)
 }
@@ -199,7 +200,7 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
             TriplesNodePath::BlankNodePropertyListPath,
         ),
         map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
+            bracketted(many1(sp_enc(graph_node_path))),
             TriplesNodePath::CollectionPath,
         ),
     ))(i)
-- 
2.43.0


From 7750feeeb51d6656cc500fdb95caf97acb2e2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 10/21] fix: '(', '[' and 'e' may begin more than one construct

---
 src/graph.rs     | 8 ++++++--
 src/literal.rs   | 2 +-
 src/terminals.rs | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 4d5d482..81eb614 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -3,7 +3,7 @@ use nom::{
     bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
-    combinator::{map, opt},
+    combinator::{map, opt, peek},
     sequence::separated_pair,
     sequence::{delimited, pair, preceded, terminated},
     IResult,
@@ -275,7 +275,11 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             ),
             |(_, label)| BlankNode::Label(label.to_string()),
         ),
-        map(anon, |_| BlankNode::Anon),
+        // `[` may also begin a blank node property list, which `anon` would cut off
+        map(
+            preceded(peek(tuple((char('['), sp, char(']')))), anon),
+            |_| BlankNode::Anon,
+        ),
     ))(i)
 }
 
diff --git a/src/literal.rs b/src/literal.rs
index c7a956c..73d20ed 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -122,7 +122,7 @@ pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
     preceded(
         alt((char('e'), char('E'))),
         map_res(
-            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
+            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),
             |s: &str| s.parse::<i64>(),
         ),
     )(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index 3d7efde..4dbf098 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -430,7 +430,7 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+    preceded(char('('), terminated(sp, char(')')))(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From b2a96971f39bb75a1ab412982a045df37eb8b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 11/21] fix: property path sequences, negated sets and
 modifiers

---
 src/expression/iri.rs |  6 +++---
 src/path.rs           | 46 ++++++++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 5f1e65f..bb3d2a6 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,10 +1,10 @@
 use crate::expression::Iri;
-use crate::terminals::iri;
+use crate::terminals::{iri, sp};
 use nom::branch::alt;
 use crate::terminals::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::preceded;
+use nom::sequence::{preceded, terminated};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -26,6 +26,6 @@ pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
     alt((
         map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),
+        map(preceded(terminated(char('^'), sp), iri_or_a), IriOrAOrCaret::Caret),
     ))(i)
 }
diff --git a/src/path.rs b/src/path.rs
index 4298f69..77241ae 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use nom::character::complete::char;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, peek};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
@@ -17,7 +17,9 @@ use nom::{
 
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
+use crate::literal::numeric_literal;
 use crate::node::ObjectList;
+use crate::terminals::tag_no_case;
 use crate::terminals::{anon, bracketted, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
@@ -222,7 +224,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
@@ -230,13 +232,15 @@ pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
 pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
     alt((
         map(iri, PathPrimary::Iri),
-        map(tag("a"), |_| PathPrimary::A),
+        map(preceded(peek(tag("a")), tag_no_case("a")), |_| {
+            PathPrimary::A
+        }),
         map(
-            preceded(tag("!"), path_negated_property_set),
+            preceded(terminated(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
         ),
         map(
-            delimited(tag("("), path_alternative, tag(")")),
+            bracketted(path_alternative),
             PathPrimary::Path,
         ),
     ))(i)
@@ -245,7 +249,10 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
 pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
     alt((
         map(path_elt, PathEltOrInverse::PathElt),
-        map(preceded(tag("^"), path_elt), PathEltOrInverse::Inverse),
+        map(
+            preceded(terminated(tag("^"), sp), path_elt),
+            PathEltOrInverse::Inverse,
+        ),
     ))(i)
 }
 
@@ -260,14 +267,20 @@ pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
 }
 
 pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
-    map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
+    alt((
+        map(path_one_in_property_set, |one| {
+            PathNegatedPropertySet(vec![one])
+        }),
+        map(nil, |_| PathNegatedPropertySet(vec![])),
+        map(
+            delimited(
+                terminated(tag("("), sp),
+                separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+            PathNegatedPropertySet,
         ),
-        PathNegatedPropertySet,
-    )(i)
+    ))(i)
 }
 
 pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInPropertySet> {
@@ -275,9 +288,10 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
+    // `?x` is a variable and `+1` a number
+    if var(i).is_ok() || numeric_literal(i).is_ok() {
+        Err(Err::Error((i, ErrorKind::Char)))
+    } else if let Some(Ok(path)) = i.get(0..1).map(PathMod::from_str) {
         Ok((&i[1..], path))
     } else {
         Err(Err::Error((i, ErrorKind::Char)))
-- 
2.43.0


From 4fbbb837c24775a8417325e6cc3d3d113d46de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 12/21] fix: signed numbers in expressions

---
 src/arithmetic.rs | 38 ++++++++++++++++++++++++--------------
 src/literal.rs    | 11 ++++++-----
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index b34c007..6a421f6 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -1,12 +1,12 @@
 use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
-use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
+use crate::literal::{signed_numeric_literal, NumericLiteral};
+use crate::terminals::{iri_ref, preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use crate::terminals::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, not, opt};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
@@ -110,6 +110,10 @@ impl fmt::Display for Sign {
 pub(crate) fn unary_expression(i: &str) -> IResult<&str, UnaryExpression> {
     alt((
         map(preceded_tag("!", primary_expression), UnaryExpression::Not),
+        // a sign attached to a number belongs to the number
+        map(signed_numeric_literal, |numeric| {
+            UnaryExpression::Default(PrimaryExpression::NumericLiteral(numeric))
+        }),
         map(preceded_tag("+", primary_expression), UnaryExpression::Add),
         map(preceded_tag("-", primary_expression), UnaryExpression::Sub),
         map(primary_expression, UnaryExpression::Default),
@@ -128,17 +132,9 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
 
 pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
     alt((
-        map(
-            preceded_tag("+", multiplicative_expression),
-            AddExpression::Add,
-        ),
-        map(
-            preceded_tag("-", multiplicative_expression),
-            AddExpression::Sub,
-        ),
         map(
             pair(
-                numeric_literal,
+                signed_numeric_literal,
                 many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
@@ -146,6 +142,14 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
                 expressions,
             },
         ),
+        map(
+            preceded_tag("+", multiplicative_expression),
+            AddExpression::Add,
+        ),
+        map(
+            preceded_tag("-", multiplicative_expression),
+            AddExpression::Sub,
+        ),
     ))(i)
 }
 
@@ -170,9 +174,15 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
     alt((
         map(preceded_tag("=", additive_expression), OpExpression::EQ),
         map(preceded_tag("!=", additive_expression), OpExpression::NE),
-        map(preceded_tag("<", additive_expression), OpExpression::LT),
+        map(
+            preceded(not(iri_ref), preceded_tag("<", additive_expression)),
+            OpExpression::LT,
+        ),
         map(preceded_tag(">", additive_expression), OpExpression::GT),
-        map(preceded_tag("<=", additive_expression), OpExpression::LE),
+        map(
+            preceded(not(iri_ref), preceded_tag("<=", additive_expression)),
+            OpExpression::LE,
+        ),
         map(preceded_tag(">=", additive_expression), OpExpression::GE),
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
diff --git a/src/literal.rs b/src/literal.rs
index 73d20ed..1a12058 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -1,4 +1,4 @@
-use nom::combinator::{cut, opt, recognize};
+use nom::combinator::{cut, opt, peek, recognize};
 use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
@@ -156,10 +156,7 @@ pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
     match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
         Ok((i, o)) => {
             // validate that no decimal/double is present
-            if i.chars()
-                .next()
-                .map_or_else(|| false, |c| ".eE".contains(c))
-            {
+            if i.starts_with('.') || exponent(i).is_ok() {
                 Err(Err::Error(make_error(i, ErrorKind::Float)))
             } else if let Ok(v) = o.parse() {
                 Ok((i, v))
@@ -171,6 +168,10 @@ pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
     }
 }
 
+pub(crate) fn signed_numeric_literal(i: &str) -> IResult<&str, NumericLiteral> {
+    preceded(peek(sign), numeric_literal)(i)
+}
+
 pub(crate) fn numeric_literal(i: &str) -> IResult<&str, NumericLiteral> {
     alt((
         map(sparql_int, NumericLiteral::Int),
-- 
2.43.0


From e689417f860e1aa5dd872b89958af47672231736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 13/21] fix: never split a number

---
 src/clauses.rs | 12 ++++++++++--
 src/literal.rs | 20 +++++++++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index fc4811c..b1d9b8c 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -3,7 +3,7 @@ use nom::{
     bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
-    combinator::{map, opt},
+    combinator::{map, not, opt},
     multi::many1,
     sequence::{delimited, separated_pair, tuple},
     sequence::{preceded, terminated},
@@ -18,6 +18,7 @@ use crate::{
     graph::group_graph_pattern,
     graph::GroupGraphPattern,
     group::{group_clause, GroupClause},
+    literal::fraction_or_exponent,
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
     terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
@@ -121,7 +122,14 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
+        preceded(
+            terminated(pat, sp),
+            // `5.5` is no integer
+            terminated(
+                take_while1(|c: char| c.is_ascii_digit()),
+                not(fraction_or_exponent),
+            ),
+        ),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/literal.rs b/src/literal.rs
index 1a12058..be57113 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -1,4 +1,4 @@
-use nom::combinator::{cut, opt, peek, recognize};
+use nom::combinator::{cut, not, opt, peek, recognize};
 use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
@@ -148,15 +148,29 @@ pub(crate) fn sparql_decimal(input: &str) -> IResult<&str, f64> {
     }
 }
 
+/// what turns the digits before it into a decimal or a double
+pub(crate) fn fraction_or_exponent(i: &str) -> IResult<&str, &str> {
+    alt((tag("."), exponent_digits))(i)
+}
+
+fn exponent_digits(i: &str) -> IResult<&str, &str> {
+    recognize(tuple((
+        alt((char('e'), char('E'))),
+        opt(alt((char('+'), char('-')))),
+        digit1,
+    )))(i)
+}
+
 pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
-    pair(sparql_decimal, opt(exponent))(i)
+    // an exponent that does not fit must not be left behind
+    terminated(pair(sparql_decimal, opt(exponent)), not(exponent_digits))(i)
 }
 
 pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
     match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
         Ok((i, o)) => {
             // validate that no decimal/double is present
-            if i.starts_with('.') || exponent(i).is_ok() {
+            if fraction_or_exponent(i).is_ok() {
                 Err(Err::Error(make_error(i, ErrorKind::Float)))
             } else if let Ok(v) = o.parse() {
                 Ok((i, v))
-- 
2.43.0


From 748fa70bc36dea7fc155350583ece17780213348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 14/21] fix: empty and triple-quoted strings

---
 src/terminals.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 4dbf098..2f8b506 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -152,29 +152,41 @@ pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
 /// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
 pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
-        delimited(
-            tag("'"),
-            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
-            tag("'"),
-        ),
-        delimited(
-            tag("\""),
-            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
-            tag("\""),
-        ),
+        quoted("'''"),
+        quoted("\"\"\""),
+        quoted("'"),
+        quoted("\""),
     ))(i)
 }
 
+/// Everything between `quote` and the next unescaped `quote`
+fn quoted<'a>(quote: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    delimited(
+        tag(quote),
+        recognize(many0(preceded(
+            not(tag(quote)),
+            alt((
+                recognize(none_of("\\")),
+                recognize(pair(char('\\'), one_of(r#""tbnrf\'"#))),
+            )),
+        ))),
+        tag(quote),
+    )
+}
+
 pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
     map(
         pair(
             map(string_literal, String::from),
             opt(alt((
                 map(
-                    map(language_tag, String::from),
+                    preceded(sp, map(language_tag, String::from)),
                     RdfLiteralDescriptor::LangTag,
                 ),
-                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
+                map(
+                    preceded(sp_enc(tag("^^")), iri),
+                    RdfLiteralDescriptor::IriRef,
+                ),
             ))),
         ),
         |(literal, descriptor)| RdfLiteral {
-- 
2.43.0


From 25cfc19570f5aa5511910c00ede2c039dff0d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 15/21] fix: argument compatibility of simple literals

---
 src/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index be57113..f78d163 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -39,9 +39,9 @@ impl StringLiteral {
         match self {
             StringLiteral::Simple(_) => {
                 if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
                     false
+                } else {
+                    true
                 }
             }
             StringLiteral::Language((_, lang)) => {
-- 
2.43.0


From 5c1a86861c2947a2af32b695980a61e3ed51a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 16/21] fix: ABS, CEIL, FLOOR and ROUND are not URI

---
 src/call.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index e5fba42..862334d 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -120,10 +120,10 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Bnode,
         ),
         map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
             preceded_tag1(
                 "concat",
-- 
2.43.0


From 295a8e1c39cd46241246e60af445216bcb5a73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 17/21] fix: CONCAT, STRLEN, SUBSTR, REPLACE, CONTAINS and
 calls without arguments

---
 src/arithmetic.rs           | 12 +++-------
 src/call.rs                 | 48 ++++++++++++++++++++-----------------
 src/clauses.rs              |  2 +-
 src/expression/functions.rs | 17 +++++++------
 src/expression/iri.rs       |  7 ++++--
 src/graph.rs                |  4 ++--
 src/group.rs                |  2 +-
 src/literal.rs              |  2 +-
 src/order.rs                |  2 +-
 src/path.rs                 |  9 ++++---
 src/quads.rs                |  5 +++-
 src/query/ask.rs            |  2 +-
 src/terminals.rs            |  7 +-----
 src/var.rs                  | 12 +++-------
 14 files changed, 63 insertions(+), 68 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 6a421f6..06acf84 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,10 +2,10 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{signed_numeric_literal, NumericLiteral};
+use crate::terminals::tag_no_case;
 use crate::terminals::{iri_ref, preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use crate::terminals::tag_no_case;
 use nom::combinator::{map, not, opt};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
@@ -133,10 +133,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
 pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
     alt((
         map(
-            pair(
-                signed_numeric_literal,
-                many0(preceded(sp, mult_expression)),
-            ),
+            pair(signed_numeric_literal, many0(preceded(sp, mult_expression))),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
                 expressions,
@@ -155,10 +152,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
 
 pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, MultiplicativeExpression> {
     map(
-        pair(
-            unary_expression,
-            many0(preceded(sp, mult_expression)),
-        ),
+        pair(unary_expression, many0(preceded(sp, mult_expression))),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
 }
diff --git a/src/call.rs b/src/call.rs
index 862334d..6587b53 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -7,11 +7,11 @@ use nom::{
     IResult,
 };
 
-use crate::terminals::tag_no_case;
 use crate::expression::functions::{
     regex_expression, str_replace_expression, substring_expression, RegexExpression,
     StrReplaceExpression, SubstringExpression,
 };
+use crate::terminals::tag_no_case;
 use crate::{
     aggregate::{aggregate, Aggregate},
     expression::{
@@ -20,7 +20,10 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{
+        bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+        sp_enc1,
+    },
     var::{var, Var},
 };
 
@@ -46,8 +49,10 @@ pub enum BuiltInCall {
     Ceil(Expression),
     Floor(Expression),
     Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
+    Concat(ExpressionList),
+    Substr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
     UCase(Expression),
     LCase(Expression),
     EncodeForUri(Expression),
@@ -113,29 +118,26 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
         map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
         map(
-            preceded_bracketted(
+            preceded_tag(
                 "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
+                alt((
+                    map(bracketted(expression), Option::Some),
+                    map(nil, |_| None),
+                )),
             ),
             BuiltInCall::Bnode,
         ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
         map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
         map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
         map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
+            preceded_tag1("concat", expression_list),
             BuiltInCall::Concat,
         ),
         map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
+            preceded_tag1("strlen", bracketted_expression),
             BuiltInCall::StrLen,
         ),
         map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
@@ -146,7 +148,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
@@ -201,11 +203,9 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Timezone,
         ),
         map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
-            BuiltInCall::StrUUID
-        }),
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| BuiltInCall::StrUUID),
     ))(i)
 }
 
@@ -277,7 +277,11 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
             preceded_bracketted("isnumeric", expression),
             BuiltInCall::IsNumeric,
         ),
-        map(regex_expression, BuiltInCall::Regex),
+        alt((
+            map(regex_expression, BuiltInCall::Regex),
+            map(substring_expression, BuiltInCall::Substr),
+            map(str_replace_expression, BuiltInCall::Replace),
+        )),
         map(
             preceded_tag1("exists", group_graph_pattern),
             BuiltInCall::ExistsFunc,
diff --git a/src/clauses.rs b/src/clauses.rs
index b1d9b8c..e5c4d6c 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -10,8 +10,8 @@ use nom::{
     IResult,
 };
 
-use crate::terminals::tag_no_case;
 use crate::expression::functions::{constraint, Constraint};
+use crate::terminals::tag_no_case;
 use crate::{
     data::{datablock, DataBlock},
     expression::DefaultOrNamedIri,
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index e0c1db7..8346d1f 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,7 +1,7 @@
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
 use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
 use crate::literal::StringLiteral;
-use crate::terminals::{bracketted, preceded_tag1, sp_enc};
+use crate::terminals::{preceded_bracketted, preceded_tag1, sp_enc};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::{map, opt};
@@ -56,12 +56,15 @@ pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression
 
 pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
     map(
-        bracketted(tuple((
-            expression,
-            preceded(sp_enc(char(',')), expression),
-            preceded(sp_enc(char(',')), expression),
-            opt(preceded(sp_enc(char(',')), expression)),
-        ))),
+        preceded_bracketted(
+            "replace",
+            tuple((
+                expression,
+                preceded(sp_enc(char(',')), expression),
+                preceded(sp_enc(char(',')), expression),
+                opt(preceded(sp_enc(char(',')), expression)),
+            )),
+        ),
         |(first, second, third, fourth)| StrReplaceExpression {
             first,
             second,
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index bb3d2a6..ac2e229 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
+use crate::terminals::tag_no_case;
 use crate::terminals::{iri, sp};
 use nom::branch::alt;
-use crate::terminals::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated};
@@ -26,6 +26,9 @@ pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
     alt((
         map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(terminated(char('^'), sp), iri_or_a), IriOrAOrCaret::Caret),
+        map(
+            preceded(terminated(char('^'), sp), iri_or_a),
+            IriOrAOrCaret::Caret,
+        ),
     ))(i)
 }
diff --git a/src/graph.rs b/src/graph.rs
index 81eb614..664dce3 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -9,8 +9,8 @@ use nom::{
     IResult,
 };
 
-use crate::terminals::tag_no_case;
 use crate::expression::functions::{filter, Constraint};
+use crate::terminals::tag_no_case;
 use crate::{
     data::inline_data,
     data::{datablock, DataBlock},
@@ -268,7 +268,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
                 recognize(pair(
                     alt((
                         pn_chars_u_one,
-                        take_while_m_n(1, 1, |c: char| c.is_ascii_digit())
+                        take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
                     )),
                     pn_chars_tail,
                 )),
diff --git a/src/group.rs b/src/group.rs
index e8aa995..1633023 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -10,8 +10,8 @@ use nom::{
     IResult,
 };
 
-use crate::terminals::tag_no_case;
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
+use crate::terminals::tag_no_case;
 
 use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
diff --git a/src/literal.rs b/src/literal.rs
index f78d163..4859f94 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -14,8 +14,8 @@ use nom::{
     Err, IResult, ParseTo,
 };
 
-use crate::terminals::tag_no_case;
 use crate::arithmetic::Sign;
+use crate::terminals::tag_no_case;
 use crate::terminals::{language_tag, rdf_literal, string_literal};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/order.rs b/src/order.rs
index 8293a04..ac50090 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,5 +1,5 @@
-use nom::branch::alt;
 use crate::terminals::tag_no_case;
+use nom::branch::alt;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
diff --git a/src/path.rs b/src/path.rs
index 77241ae..1d33986 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -20,7 +20,9 @@ use crate::expression::Iri;
 use crate::literal::numeric_literal;
 use crate::node::ObjectList;
 use crate::terminals::tag_no_case;
-use crate::terminals::{anon, bracketted, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{
+    anon, bracketted, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1,
+};
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
 
@@ -239,10 +241,7 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
             preceded(terminated(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
         ),
-        map(
-            bracketted(path_alternative),
-            PathPrimary::Path,
-        ),
+        map(bracketted(path_alternative), PathPrimary::Path),
     ))(i)
 }
 
diff --git a/src/quads.rs b/src/quads.rs
index 1444f31..e672442 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -50,7 +50,10 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(preceded(sp, quads_entry))),
+        pair(
+            opt(terminated(triples_template, sp)),
+            many0(preceded(sp, quads_entry)),
+        ),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
diff --git a/src/query/ask.rs b/src/query/ask.rs
index be2391d..d05de7e 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,8 +1,8 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1};
 use crate::terminals::tag_no_case;
+use crate::terminals::{sp, sp1};
 use nom::combinator::map;
 use nom::multi::many0;
 use nom::sequence::{preceded, terminated, tuple};
diff --git a/src/terminals.rs b/src/terminals.rs
index 2f8b506..ec6d6fe 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -151,12 +151,7 @@ pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
 
 /// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
 pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
-    alt((
-        quoted("'''"),
-        quoted("\"\"\""),
-        quoted("'"),
-        quoted("\""),
-    ))(i)
+    alt((quoted("'''"), quoted("\"\"\""), quoted("'"), quoted("\"")))(i)
 }
 
 /// Everything between `quote` and the next unescaped `quote`
diff --git a/src/var.rs b/src/var.rs
index b7ac427..15fb816 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
-use crate::terminals::tag_no_case;
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
+use crate::terminals::tag_no_case;
 use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
@@ -73,10 +73,7 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
-        map(
-            preceded(char('?'), map(var_name, String::from)),
-            Var::QMark,
-        ),
+        map(preceded(char('?'), map(var_name, String::from)), Var::QMark),
         map(
             preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
@@ -86,10 +83,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
-        map(
-            many1(preceded(sp, var_or_iri)),
-            VarOrIrisOrAll::VarIri,
-        ),
+        map(many1(preceded(sp, var_or_iri)), VarOrIrisOrAll::VarIri),
         map(char('*'), |_| VarOrIrisOrAll::All),
     ))(i)
 }
-- 
2.43.0


From 78a39982a32d5d3a198d2f6e9161ce2d311716d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 18/21] fix: an argument list may follow its IRI directly

---
 src/terminals.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index ec6d6fe..e896520 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -282,10 +282,9 @@ pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
 }
 
 pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
-    map(
-        pair(iri, opt(preceded(sp1, arg_list))),
-        |(iri, arg_list)| IriOrFunction { iri, arg_list },
-    )(i)
+    map(pair(iri, opt(preceded(sp, arg_list))), |(iri, arg_list)| {
+        IriOrFunction { iri, arg_list }
+    })(i)
 }
 
 #[inline]
-- 
2.43.0


From 385988be871845b56af8bac311838b1b6cf1a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 19/21] fix: WITH, DELETE, ADD and MOVE updates

---
 src/clauses.rs    | 2 +-
 src/operations.rs | 2 +-
 src/update.rs     | 8 +++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index e5c4d6c..c766d20 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -108,7 +108,7 @@ pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
 
 #[inline]
 pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
+    preceded_tag1("delete", quads_pattern)(i)
 }
 
 #[inline]
diff --git a/src/operations.rs b/src/operations.rs
index 04aee05..3661174 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -96,7 +96,7 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp)),
+            opt(delimited(tag_no_case("with"), sp_enc(iri), sp)),
             terminated(delete_insert, sp),
             many0(preceded(sp, using_clause)),
             sp_enc(tag_no_case("where")),
diff --git a/src/update.rs b/src/update.rs
index 2f79543..781198c 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -8,9 +8,9 @@ use nom::{
 };
 
 use crate::operations::{
-    clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
-    load_stmt, modify_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
-    DropStatement, LoadStatement, ModifyStatement, MoveStatement,
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
+    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement,
+    CreateStatement, DropStatement, LoadStatement, ModifyStatement, MoveStatement,
 };
 use crate::prologue::Prologue;
 use crate::quads::Quads;
@@ -71,6 +71,8 @@ pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
         map(clear_stmt, UpdateStatement::Clear),
         map(drop_stmt, UpdateStatement::Drop),
         map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
         map(copy_stmt, UpdateStatement::Copy),
         map(insert_data, UpdateStatement::InsertData),
         map(delete_data, UpdateStatement::DeleteData),
-- 
2.43.0


From d0da9fdc2db8141c06c137482e20a1850cea36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 20/21] fix: a dot before a digit begins a number

---
 src/graph.rs     |  4 ++--
 src/quads.rs     |  4 ++--
 src/terminals.rs |  5 +++++
 src/triple.rs    | 10 +++++-----
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 664dce3..8d5c152 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,7 +23,7 @@ use crate::{
     query::select::{sub_select, SubSelect},
     terminals::sp_sep1,
     terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        anon, default_or_named_iri, dot, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
@@ -209,7 +209,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/quads.rs b/src/quads.rs
index e672442..d81a6a9 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -17,7 +17,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -79,7 +79,7 @@ pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
         separated_pair(
             quads_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_template)),
         ),
         |(quads_not_triples, triples_template)| QuadsEntry {
diff --git a/src/terminals.rs b/src/terminals.rs
index e896520..cd98533 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -145,6 +145,11 @@ where
     separated_pair(first, sp, second)
 }
 
+/// A dot between triples; before a digit it is the start of a number.
+pub(crate) fn dot(i: &str) -> IResult<&str, char> {
+    terminated(char('.'), not(digit1))(i)
+}
+
 pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
     escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
 }
diff --git a/src/triple.rs b/src/triple.rs
index e108ca9..ef52f33 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1},
     var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
 };
 
@@ -92,8 +92,8 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
         terminated(
-            separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
-            opt(preceded(sp, char('.'))),
+            separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject_path),
+            opt(preceded(sp, dot)),
         ),
         TriplesBlock,
     )(i)
@@ -101,8 +101,8 @@ pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject),
-        opt(preceded(sp, char('.'))),
+        separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject),
+        opt(preceded(sp, dot)),
     )(i)
 }
 
-- 
2.43.0


From 0eb12e0aa0841f75d80d118595dba6f0edf29f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 21/21] fix: the predicate 'a' is case-sensitive

---
 src/expression/iri.rs | 5 ++---
 src/path.rs           | 7 ++-----
 src/terminals.rs      | 5 +++++
 src/var.rs            | 8 ++------
 4 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index ac2e229..fbdef85 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,6 +1,5 @@
 use crate::expression::Iri;
-use crate::terminals::tag_no_case;
-use crate::terminals::{iri, sp};
+use crate::terminals::{a, iri, sp};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::map;
@@ -20,7 +19,7 @@ pub enum IriOrA {
 }
 
 pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+    alt((map(iri, IriOrA::Iri), map(a, |_| IriOrA::A)))(i)
 }
 
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
diff --git a/src/path.rs b/src/path.rs
index 1d33986..edc2cb0 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -19,9 +19,8 @@ use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::literal::numeric_literal;
 use crate::node::ObjectList;
-use crate::terminals::tag_no_case;
 use crate::terminals::{
-    anon, bracketted, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1,
+    a, anon, bracketted, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1,
 };
 use crate::triple::object_list;
 use crate::var::{var, var_or_term, Var, VarOrTerm};
@@ -234,9 +233,7 @@ pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
 pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
     alt((
         map(iri, PathPrimary::Iri),
-        map(preceded(peek(tag("a")), tag_no_case("a")), |_| {
-            PathPrimary::A
-        }),
+        map(a, |_| PathPrimary::A),
         map(
             preceded(terminated(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
diff --git a/src/terminals.rs b/src/terminals.rs
index cd98533..e0af3a7 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -47,6 +47,11 @@ pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a s
     }
 }
 
+/// The predicate `a`, the only keyword that is case-sensitive
+pub(crate) fn a(i: &str) -> IResult<&str, &str> {
+    preceded(peek(tag("a")), tag_no_case("a"))(i)
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
diff --git a/src/var.rs b/src/var.rs
index 15fb816..9b32229 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,8 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::tag_no_case;
-use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp};
+use crate::terminals::{a, iri, is_name_extender, is_pn_chars_u, sp};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -61,10 +60,7 @@ pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
 }
 
 pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
-    alt((
-        map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
-    ))(i)
+    alt((map(var_or_iri, Verb::VarOrIri), map(a, |_| Verb::A)))(i)
 }
 
 pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
-- 
2.43.0

