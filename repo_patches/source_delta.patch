From 114074d1374a017bb72f3e3020935a19f938f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 01/31] fix: match NOT IN on complete input instead of asking
 for more

---
 src/arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..9600531 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -5,7 +5,7 @@ use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
+use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
-- 
2.43.0


From dbfb277c98048a81f57bd5a4130ae2d88b72be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 02/31] fix: compare keywords by ASCII case only

---
 src/aggregate.rs       |  5 +++--
 src/arithmetic.rs      |  2 +-
 src/call.rs            |  5 +++--
 src/clauses.rs         |  4 ++--
 src/data.rs            |  6 ++++--
 src/expression/iri.rs  |  2 +-
 src/expression/mod.rs  |  6 ++++--
 src/graph.rs           |  4 ++--
 src/group.rs           |  4 ++--
 src/literal.rs         |  4 ++--
 src/operations.rs      |  4 ++--
 src/order.rs           |  2 +-
 src/path.rs            |  2 +-
 src/quads.rs           |  4 ++--
 src/query/ask.rs       |  2 +-
 src/query/construct.rs |  3 +--
 src/query/describe.rs  |  3 +--
 src/query/select.rs    |  4 ++--
 src/terminals.rs       | 12 ++++++++++--
 src/triple.rs          |  2 +-
 src/var.rs             |  4 ++--
 21 files changed, 48 insertions(+), 36 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..30dacf4 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,11 +1,12 @@
 use crate::{
     expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
     literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal},
+    terminals::{
+        bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case,
+    },
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     sequence::{pair, preceded, terminated, tuple},
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 9600531..cdb0ca3 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -2,10 +2,10 @@ use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
+use crate::terminals::tag_no_case;
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::{map, opt};
 use nom::multi::{separated_list, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..2130436 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,6 +1,5 @@
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -20,7 +19,9 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{
+        iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case,
+    },
     var::{var, Var},
 };
 
diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..1cbe9a5 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..19a3a2d 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::map,
     multi::{many0, many1, separated_list, separated_nonempty_list},
@@ -12,7 +12,9 @@ use crate::{
     expression::{DefaultOrNamedIri, Iri},
     literal::{boolean, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc},
+    terminals::{
+        bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case,
+    },
     var::{var, Var},
 };
 
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..b04b9d7 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
 use crate::terminals::iri;
+use crate::terminals::tag_no_case;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..878c131 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{tag, tag_no_case},
+    bytes::complete::tag,
     character::complete::char,
     combinator::{map, opt},
     multi::separated_nonempty_list,
@@ -13,7 +13,9 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
+    terminals::{
+        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case,
+    },
 };
 
 use crate::var::{var, Var};
diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..d789306 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -23,7 +23,7 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
diff --git a/src/group.rs b/src/group.rs
index f759ccc..6265b46 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -3,7 +3,7 @@ use nom::multi::separated_nonempty_list;
 use nom::sequence::delimited;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1};
+use crate::terminals::{sp, sp1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..01eedb9 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -3,7 +3,7 @@ use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::{
         complete::{char, digit1},
         is_digit,
@@ -15,7 +15,7 @@ use nom::{
 };
 
 use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal};
+use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum StringLiteral {
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..30dfd37 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
diff --git a/src/order.rs b/src/order.rs
index bed59ae..4249b2b 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,5 +1,5 @@
+use crate::terminals::tag_no_case;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
 use nom::sequence::separated_pair;
 use nom::IResult;
diff --git a/src/path.rs b/src/path.rs
index 437a410..f739e82 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -8,7 +8,7 @@ use nom::sequence::{delimited, pair, separated_pair, tuple};
 use nom::Err;
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
     combinator::map_res,
     sequence::{preceded, terminated},
diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..ad96970 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..15128b5 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,8 +1,8 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
+use crate::terminals::tag_no_case;
 use crate::terminals::{sp, sp1};
-use nom::bytes::complete::tag_no_case;
 use nom::combinator::map;
 use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..e48da14 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,14 +2,13 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
 };
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::many1,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..be2ed94 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,11 +1,10 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
+use crate::terminals::{sp, sp_enc1, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
-    bytes::complete::tag_no_case,
     character::complete::char,
     combinator::{map, opt},
     multi::{separated_list, separated_nonempty_list},
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..575f50d 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,5 +1,5 @@
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
 use nom::multi::{many1, separated_list};
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc};
+use crate::terminals::{sp, sp1, sp_enc, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..084b9eb 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,7 +1,7 @@
 use nom::{
     branch::alt,
     bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take, take_while1, take_while_m_n},
     character::complete::{anychar, char, digit1, none_of, one_of},
     character::{
         complete::{alpha1, alphanumeric1},
@@ -9,7 +9,7 @@ use nom::{
     },
     character::{is_alphanumeric, is_digit},
     combinator::recognize,
-    combinator::{complete, cond, cut, map, map_res, not, opt, peek},
+    combinator::{complete, cond, cut, map, map_res, not, opt, peek, verify},
     error::ErrorKind,
     multi::{fold_many0, separated_list},
     multi::{many0, many1},
@@ -29,6 +29,14 @@ use crate::{
     var::{Var, VarOrIri, VarOrTerm, VerbList},
 };
 
+/// Matches `tag`, which has to be ASCII, regardless of the case of its letters.
+///
+/// In contrast to nom's `tag_no_case` only ASCII letters are folded.
+#[inline]
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    verify(take(tag.len()), move |s: &str| s.eq_ignore_ascii_case(tag))
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
diff --git a/src/triple.rs b/src/triple.rs
index 7ce8f5e..9cbbca6 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::complete::char,
     character::is_digit,
     combinator::map_res,
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..e77dd5f 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,10 +1,10 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
+use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::recognize;
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-- 
2.43.0


From 89330b59fb781a12a718f1df48e710f9563a91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 03/31] fix: path modifier neither panics nor asks for more
 input

---
 src/path.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index f739e82..90a9b3b 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,18 +1,16 @@
 use std::str::FromStr;
 
-use nom::character::complete::char;
+use nom::character::complete::{char, one_of};
 use nom::combinator::{map, opt};
-use nom::error::ErrorKind;
 use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
-use nom::Err;
 use nom::{
     branch::alt,
     bytes::complete::{escaped, tag, take_while1, take_while_m_n},
     character::is_digit,
-    combinator::map_res,
+    combinator::{map_res, recognize},
     sequence::{preceded, terminated},
-    IResult, Needed,
+    IResult,
 };
 
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
@@ -274,13 +272,7 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
-        Ok((&i[1..], path))
-    } else {
-        Err(Err::Error((i, ErrorKind::Char)))
-    }
+    map_res(recognize(one_of("?*+")), PathMod::from_str)(i)
 }
 
 #[inline]
-- 
2.43.0


From f9ae643b3976f289293b94230cddaaf3b1354043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 04/31] fix: accept one character local names and keep a
 trailing dot out of names

---
 src/terminals.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 084b9eb..d1121a1 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -274,10 +274,7 @@ pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
 #[inline]
 pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
     // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
+    recognize(many0(preceded(take_while(|c| c == '.'), pn_chars1)))(i)
 }
 
 fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
@@ -306,12 +303,9 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
             take_while_m_n(1, 1, |c| is_digit(c as u8)),
             plx,
         )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
+        many0(preceded(
+            take_while(|c| c == '.'),
+            alt((take_while1(|c| is_pn_char(c) || c == ':'), plx)),
         )),
     ))(i)
 }
-- 
2.43.0


From 444347bb4b771d799772bf4a58933fd781e353b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 05/31] fix: do not truncate characters before classifying them

---
 src/clauses.rs   | 5 ++++-
 src/graph.rs     | 5 ++++-
 src/terminals.rs | 6 +++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 1cbe9a5..437a0a5 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -120,7 +120,10 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        preceded(
+            terminated(pat, sp),
+            take_while1(|c: char| c.is_ascii_digit()),
+        ),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/graph.rs b/src/graph.rs
index d789306..48de185 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -265,7 +265,10 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             sp_sep(
                 tag("_:"),
                 recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    alt((
+                        pn_chars_u_one,
+                        take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
+                    )),
                     pn_chars_tail,
                 )),
             ),
diff --git a/src/terminals.rs b/src/terminals.rs
index d1121a1..be68a94 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -233,7 +233,7 @@ pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
             if chrs.contains(c) {
                 false
             } else {
-                c as u8 > 0x20
+                c > ' '
             }
         }),
         tag(">"),
@@ -300,7 +300,7 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
         alt((
             pn_chars_u_one,
             tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
             plx,
         )),
         many0(preceded(
@@ -363,7 +363,7 @@ pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
 
 #[inline]
 pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
+    i.is_ascii_alphabetic() || is_unicode(i)
 }
 
 #[inline]
-- 
2.43.0


From 2e902cfb85ede642092aada570f29ba59a8f5762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 06/31] fix: allow all name characters of the SPARQL grammar

---
 src/terminals.rs | 12 +++++++++++-
 src/var.rs       |  5 ++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index be68a94..26b1e32 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -340,6 +340,7 @@ pub(crate) fn is_unicode(c: char) -> bool {
         '\u{3001}'..='\u{D7FF}' => true,
         '\u{F900}'..='\u{FDCF}' => true,
         '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
         _ => false,
     }
 }
@@ -393,7 +394,16 @@ pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
 
 #[inline]
 pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_pn_chars_extra(i)
+}
+
+/// The characters which are allowed in a name, but not at its start.
+#[inline]
+pub(crate) fn is_pn_chars_extra(c: char) -> bool {
+    match c {
+        '\u{00B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}' => true,
+        _ => false,
+    }
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index e77dd5f..91615a7 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
+use crate::terminals::{iri, is_pn_chars_extra, is_pn_chars_u, sp, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -100,11 +100,10 @@ pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpression
     ))(i)
 }
 
-// TODO consider unicode cases in second
 pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_pn_chars_extra(c)),
     ))(i)
 }
 
-- 
2.43.0


From aac83bcd0477c31d58b054d90b14f5d999e810e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 07/31] fix: no white space inside variables, prefixed names
 and blank node labels

---
 src/graph.rs     | 2 +-
 src/terminals.rs | 4 ++--
 src/var.rs       | 7 ++-----
 3 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 48de185..2d5bc43 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -262,7 +262,7 @@ pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
 pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
     alt((
         map(
-            sp_sep(
+            pair(
                 tag("_:"),
                 recognize(pair(
                     alt((
diff --git a/src/terminals.rs b/src/terminals.rs
index 26b1e32..a351fb7 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -315,11 +315,11 @@ pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
 }
 
 pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+    pair(pname_ns, map(pn_local, String::from))(i)
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index 91615a7..f850eaa 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -72,12 +72,9 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
+        map(preceded(char('?'), map(var_name, String::from)), Var::QMark),
         map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
-            Var::QMark,
-        ),
-        map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
         ),
     ))(i)
-- 
2.43.0


From 176ddaa2a0186b91791d00c383434c133cf6a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 08/31] fix: accept empty string literals

---
 src/terminals.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/terminals.rs b/src/terminals.rs
index a351fb7..221d8da 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -152,6 +152,9 @@ pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
             escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
             tag("\""),
         ),
+        // an empty literal, but not the start of a long one
+        map(terminated(tag("''"), not(char('\''))), |_| ""),
+        map(terminated(tag("\"\""), not(char('"'))), |_| ""),
     ))(i)
 }
 
-- 
2.43.0


From d5516e32e2c7db40991cbdb39d49417ec2c36320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 09/31] fix: an opening bracket does not commit to nil or an
 anonymous blank node

---
 src/graph.rs     | 6 +++---
 src/terminals.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 2d5bc43..1416cf7 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -22,8 +22,8 @@ use crate::{
     query::select::{sub_select, SubSelect},
     terminals::sp_sep1,
     terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case,
+        default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local, preceded_tag1,
+        rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
@@ -274,7 +274,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             ),
             |(_, label)| BlankNode::Label(label.to_string()),
         ),
-        map(anon, |_| BlankNode::Anon),
+        map(delimited(char('['), sp, char(']')), |_| BlankNode::Anon),
     ))(i)
 }
 
diff --git a/src/terminals.rs b/src/terminals.rs
index 221d8da..bd805c7 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -424,7 +424,7 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+    delimited(char('('), sp, char(')'))(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 690746641b88796ca12a3be9d8901564f28802b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 10/31] fix: a letter e after an integer is not always an
 exponent

---
 src/literal.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index 01eedb9..c0605d7 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -1,4 +1,4 @@
-use nom::combinator::{cut, opt, recognize};
+use nom::combinator::{opt, recognize};
 use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
@@ -121,7 +121,7 @@ pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
     preceded(
         alt((char('e'), char('E'))),
         map_res(
-            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
+            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),
             |s: &str| s.parse::<i64>(),
         ),
     )(i)
@@ -155,10 +155,7 @@ pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
     match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
         Ok((i, o)) => {
             // validate that no decimal/double is present
-            if i.chars()
-                .next()
-                .map_or_else(|| false, |c| ".eE".contains(c))
-            {
+            if i.starts_with('.') || exponent(i).is_ok() {
                 Err(Err::Error(make_error(i, ErrorKind::Float)))
             } else if let Ok(v) = o.parse() {
                 Ok((i, v))
-- 
2.43.0


From b817ba3489368f50c937858f10ba9971837becd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 11/31] fix: an optional separator that matches nothing does
 not fail a list

---
 src/clauses.rs         |  9 +++------
 src/graph.rs           |  6 +++---
 src/group.rs           |  4 ++--
 src/operations.rs      |  5 ++---
 src/query/ask.rs       |  5 ++---
 src/query/construct.rs |  6 +++---
 src/query/describe.rs  |  5 ++---
 src/query/select.rs    |  6 +++---
 src/terminals.rs       | 21 +++++++++++++++++++++
 src/var.rs             |  7 ++-----
 10 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 437a0a5..3fbc00c 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, tag_no_case},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_list1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -72,7 +72,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, order_condition),
+            sp_list1(order_condition),
         ),
         OrderClause,
     )(i)
@@ -80,10 +80,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
-        preceded(
-            terminated(tag_no_case("having"), sp1),
-            separated_nonempty_list(sp, constraint),
-        ),
+        preceded(terminated(tag_no_case("having"), sp1), sp_list1(constraint)),
         HavingClause,
     )(i)
 }
diff --git a/src/graph.rs b/src/graph.rs
index 1416cf7..39e3909 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,14 +23,14 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local, preceded_tag1,
-        rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case,
+        rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep, tag_no_case,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
 };
 use nom::character::complete::char;
 use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::separated_nonempty_list;
 use nom::sequence::tuple;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -195,7 +195,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            sp_list0(group_graph_pattern_and_triples),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
diff --git a/src/group.rs b/src/group.rs
index 6265b46..2ff9fba 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1, tag_no_case};
+use crate::terminals::{sp, sp1, sp_list1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -34,7 +34,7 @@ pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, group_condition),
+            sp_list1(group_condition),
         ),
         GroupClause,
     )(i)
diff --git a/src/operations.rs b/src/operations.rs
index 30dfd37..0ae0cab 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -4,7 +4,6 @@ use nom::{
     character::is_digit,
     combinator::map_res,
     combinator::{map, opt},
-    multi::separated_list,
     sequence::{delimited, pair, tuple},
     sequence::{preceded, terminated},
     IResult,
@@ -19,7 +18,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -97,7 +96,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
         tuple((
             opt(delimited(tag_no_case("where"), iri, sp1)),
             terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
+            sp_list0(using_clause),
             sp_enc1(tag_no_case("where")),
             group_graph_pattern,
         )),
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 15128b5..8dcbad9 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -2,9 +2,8 @@ use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
 use crate::terminals::tag_no_case;
-use crate::terminals::{sp, sp1};
+use crate::terminals::{sp, sp1, sp_list0};
 use nom::combinator::map;
-use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
 use nom::IResult;
 
@@ -19,7 +18,7 @@ pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
             terminated(tag_no_case("ask"), sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index e48da14..b320989 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,7 +2,7 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
@@ -45,7 +45,7 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(tag_no_case("where"), sp1),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
@@ -62,7 +62,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
             terminated(construct_template, sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index be2ed94..b22fd9e 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,13 +1,12 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, tag_no_case};
+use crate::terminals::{sp, sp_enc1, sp_list0, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
     sequence::{terminated, tuple},
     IResult,
 };
@@ -25,7 +24,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
         tuple((
             tag_no_case("describe"),
             sp_enc1(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/query/select.rs b/src/query/select.rs
index 575f50d..f952e28 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -2,7 +2,7 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
+use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::IResult;
 
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc, tag_no_case};
+use crate::terminals::{sp, sp1, sp_enc, sp_list0, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -54,7 +54,7 @@ pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
             terminated(select_clause, sp1),
-            separated_list(sp, data_set_clause),
+            sp_list0(data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
         )),
diff --git a/src/terminals.rs b/src/terminals.rs
index bd805c7..c05e859 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -135,6 +135,27 @@ where
     separated_pair(first, sp, second)
 }
 
+/// A sequence of items between which white space is allowed, but not required.
+pub(crate) fn sp_list0<'a, O, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O>,
+{
+    map(opt(sp_list1(pat)), Option::unwrap_or_default)
+}
+
+/// Same as [`sp_list0`], but with at least one item.
+pub(crate) fn sp_list1<'a, O, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O>,
+{
+    move |i| {
+        let (i, first) = pat(i)?;
+        let (i, mut items) = many0(preceded(sp, &pat))(i)?;
+        items.insert(0, first);
+        Ok((i, items))
+    }
+}
+
 pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
     escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
 }
diff --git a/src/var.rs b/src/var.rs
index f850eaa..15f44a0 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_extra, is_pn_chars_u, sp, tag_no_case};
+use crate::terminals::{iri, is_pn_chars_extra, is_pn_chars_u, sp_list1, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -82,10 +82,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
-        map(
-            separated_nonempty_list(sp, var_or_iri),
-            VarOrIrisOrAll::VarIri,
-        ),
+        map(sp_list1(var_or_iri), VarOrIrisOrAll::VarIri),
         map(char('*'), |_| VarOrIrisOrAll::All),
     ))(i)
 }
-- 
2.43.0


From 4d76cfb504a6d9daf42448b8f2f5f02aef36b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 12/31] fix: do not require white space between operators of
 one level

---
 src/arithmetic.rs     | 14 ++++----------
 src/call.rs           |  2 +-
 src/expression/mod.rs |  7 ++++---
 src/terminals.rs      |  2 +-
 4 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index cdb0ca3..f644cc5 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -7,7 +7,7 @@ use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
 
@@ -120,7 +120,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            many0(preceded(sp, add_expression)),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -137,10 +137,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
             AddExpression::Sub,
         ),
         map(
-            pair(
-                numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
-            ),
+            pair(numeric_literal, many0(preceded(sp, mult_expression))),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
                 expressions,
@@ -151,10 +148,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
 
 pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, MultiplicativeExpression> {
     map(
-        pair(
-            unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
-        ),
+        pair(unary_expression, many0(preceded(sp, mult_expression))),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
 }
diff --git a/src/call.rs b/src/call.rs
index 2130436..8b695f2 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -304,7 +304,7 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
                     map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             |(distinct, expressions)| ArgList::Expression {
                 distinct,
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 878c131..57a83e7 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -14,7 +14,8 @@ use crate::{
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
     terminals::{
-        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case,
+        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1,
+        tag_no_case,
     },
 };
 
@@ -171,9 +172,9 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
         map(nil, |_| ExpressionList::Nil),
         map(
             delimited(
-                char('('),
+                terminated(char('('), sp),
                 separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             ExpressionList::List,
         ),
diff --git a/src/terminals.rs b/src/terminals.rs
index c05e859..bc2ef4d 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -53,7 +53,7 @@ pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a s
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    delimited(char('('), pat, char(')'))
+    delimited(char('('), sp_enc(pat), char(')'))
 }
 
 #[inline]
-- 
2.43.0


From d4437db7dbf27924c9cb50f57a930665ca0cb725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 13/31] fix: accept several white space separated items in a
 SELECT clause

---
 src/query/select.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/query/select.rs b/src/query/select.rs
index f952e28..cf6ed28 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -2,7 +2,6 @@ use nom::branch::alt;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
 use nom::character::complete::{anychar, char, digit1, none_of, one_of};
 use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::many1;
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
 use nom::IResult;
 
@@ -13,7 +12,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc, sp_list0, tag_no_case};
+use crate::terminals::{sp, sp1, sp_enc, sp_list0, sp_list1, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -99,7 +98,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
     alt((
         map(char('*'), |_| SelectVars::All),
         map(
-            many1(var_or_expression_as_var),
+            sp_list1(var_or_expression_as_var),
             SelectVars::VarOrExpressionAsVar,
         ),
     ))(i)
-- 
2.43.0


From 6bd793c26a90bb8c1bde86d0fcbafac382dd5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 14/31] fix: DELETE and WITH keywords of update operations

---
 src/clauses.rs    | 2 +-
 src/operations.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 3fbc00c..ff1099c 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -103,7 +103,7 @@ pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
 
 #[inline]
 pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
+    preceded_tag1("delete", quads_pattern)(i)
 }
 
 #[inline]
diff --git a/src/operations.rs b/src/operations.rs
index 0ae0cab..250c365 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -94,10 +94,10 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
+            opt(terminated(preceded_tag1("with", iri), sp)),
             terminated(delete_insert, sp),
             sp_list0(using_clause),
-            sp_enc1(tag_no_case("where")),
+            sp_enc(tag_no_case("where")),
             group_graph_pattern,
         )),
         |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
-- 
2.43.0


From 60f2cb9123380eea54ed79521f4ed6cd42dd3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 15/31] fix: parse ADD and MOVE update operations

---
 src/update.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/update.rs b/src/update.rs
index 2f79543..781198c 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -8,9 +8,9 @@ use nom::{
 };
 
 use crate::operations::{
-    clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
-    load_stmt, modify_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
-    DropStatement, LoadStatement, ModifyStatement, MoveStatement,
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
+    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement,
+    CreateStatement, DropStatement, LoadStatement, ModifyStatement, MoveStatement,
 };
 use crate::prologue::Prologue;
 use crate::quads::Quads;
@@ -71,6 +71,8 @@ pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
         map(clear_stmt, UpdateStatement::Clear),
         map(drop_stmt, UpdateStatement::Drop),
         map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
         map(copy_stmt, UpdateStatement::Copy),
         map(insert_data, UpdateStatement::InsertData),
         map(delete_data, UpdateStatement::DeleteData),
-- 
2.43.0


From 55beaaca18b000944efb64cb88e155eae2e75902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 16/31] fix: ABS, CEIL, FLOOR, ROUND and CONTAINS yield their
 own node

---
 src/call.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 8b695f2..64e1a63 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -121,10 +121,10 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Bnode,
         ),
         map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
             preceded_tag1(
                 "concat",
@@ -147,7 +147,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
-- 
2.43.0


From 07365c7f6dbae7adb124f72cdd8c096a7dbbac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 17/31] fix: arguments of CONCAT, SUBSTR, STRLEN, REPLACE and
 of functions without any

---
 src/call.rs                 | 41 +++++++++++++++++--------------------
 src/expression/functions.rs | 17 ++++++++-------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 64e1a63..6430cbf 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -20,7 +20,8 @@ use crate::{
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
     terminals::{
-        iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case,
+        bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+        sp_enc1, tag_no_case,
     },
     var::{var, Var},
 };
@@ -47,8 +48,10 @@ pub enum BuiltInCall {
     Ceil(Expression),
     Floor(Expression),
     Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
+    Concat(ExpressionList),
+    SubStr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
     UCase(Expression),
     LCase(Expression),
     EncodeForUri(Expression),
@@ -114,29 +117,23 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
         map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
         map(
-            preceded_bracketted(
+            preceded_tag(
                 "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
+                alt((
+                    map(bracketted(expression), Option::Some),
+                    map(nil, |_| None),
+                )),
             ),
             BuiltInCall::Bnode,
         ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
         map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
         map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
         map(preceded_bracketted("round", expression), BuiltInCall::Round),
+        map(preceded_tag("concat", expression_list), BuiltInCall::Concat),
         map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
-            BuiltInCall::Concat,
-        ),
-        map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
+            preceded_bracketted("strlen", expression),
             BuiltInCall::StrLen,
         ),
         map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
@@ -185,6 +182,8 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             ),
             BuiltInCall::StrAfter,
         ),
+        map(substring_expression, BuiltInCall::SubStr),
+        map(str_replace_expression, BuiltInCall::Replace),
         map(preceded_bracketted("year", expression), BuiltInCall::Year),
         map(preceded_bracketted("month", expression), BuiltInCall::Month),
         map(preceded_bracketted("day", expression), BuiltInCall::Day),
@@ -202,11 +201,9 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Timezone,
         ),
         map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
-            BuiltInCall::StrUUID
-        }),
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| BuiltInCall::StrUUID),
     ))(i)
 }
 
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index e0c1db7..8346d1f 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,7 +1,7 @@
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
 use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
 use crate::literal::StringLiteral;
-use crate::terminals::{bracketted, preceded_tag1, sp_enc};
+use crate::terminals::{preceded_bracketted, preceded_tag1, sp_enc};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::{map, opt};
@@ -56,12 +56,15 @@ pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression
 
 pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
     map(
-        bracketted(tuple((
-            expression,
-            preceded(sp_enc(char(',')), expression),
-            preceded(sp_enc(char(',')), expression),
-            opt(preceded(sp_enc(char(',')), expression)),
-        ))),
+        preceded_bracketted(
+            "replace",
+            tuple((
+                expression,
+                preceded(sp_enc(char(',')), expression),
+                preceded(sp_enc(char(',')), expression),
+                opt(preceded(sp_enc(char(',')), expression)),
+            )),
+        ),
         |(first, second, third, fourth)| StrReplaceExpression {
             first,
             second,
-- 
2.43.0


From f8c8329532c719f5a5ba9e9092407f5d6a57e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 18/31] fix: separators of path sequences and of object lists

---
 src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 90a9b3b..7a674b1 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -175,7 +175,7 @@ pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
 
 pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
     map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
         ObjectListPath,
     )(i)
 }
@@ -219,7 +219,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
-- 
2.43.0


From 684135a87fcdc5de43a6c969499510366bad7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 19/31] fix: the question mark of a variable is no path
 modifier

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 7a674b1..6eef71e 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -248,7 +248,7 @@ pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
 
 pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
     map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
+        pair(path_primary, opt(path_mod)),
         |(path_primary, path_mod)| PathElt {
             path_primary,
             path_mod,
-- 
2.43.0


From d2d8e3060a62e0bc363e86c5e9204fa6110a784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 20/31] fix: negated path element, white space and trailing
 semicolon in path triples

---
 src/path.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 6eef71e..39ab617 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -152,7 +152,10 @@ pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyLis
         tuple((
             terminated(verb_path_or_simple, sp1),
             object_list_path,
-            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            terminated(
+                many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+                many0(preceded(sp, char(';'))),
+            ),
         )),
         |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
             verb_path_or_simple,
@@ -197,7 +200,7 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
             TriplesNodePath::BlankNodePropertyListPath,
         ),
         map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
+            delimited(tag("("), many1(sp_enc(graph_node_path)), tag(")")),
             TriplesNodePath::CollectionPath,
         ),
     ))(i)
@@ -233,7 +236,7 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
             PathPrimary::PathNegatedPropertySet,
         ),
         map(
-            delimited(tag("("), path_alternative, tag(")")),
+            delimited(tag("("), sp_enc(path_alternative), tag(")")),
             PathPrimary::Path,
         ),
     ))(i)
@@ -258,11 +261,14 @@ pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
 
 pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
     map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
-        ),
+        alt((
+            map(path_one_in_property_set, |one| vec![one]),
+            delimited(
+                terminated(tag("("), sp),
+                separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+        )),
         PathNegatedPropertySet,
     )(i)
 }
-- 
2.43.0


From d718c76ce642ddb4c4c5f63d67ef94e3b83e35e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 21/31] fix: white space before the prologue, a VALUES clause
 and a grouping alias

---
 src/expression/mod.rs | 5 ++---
 src/parser.rs         | 8 ++++----
 src/update.rs         | 2 +-
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 57a83e7..a63d242 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -14,8 +14,7 @@ use crate::{
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
     terminals::{
-        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1,
-        tag_no_case,
+        bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, tag_no_case,
     },
 };
 
@@ -129,7 +128,7 @@ pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt
     delimited(
         char('('),
         sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),
             |(expression, var)| ExpressionAsVarOpt {
                 expression: Box::new(expression),
                 var,
diff --git a/src/parser.rs b/src/parser.rs
index 4ad7263..ae332e6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,18 +4,18 @@ use crate::query::construct::construct_query;
 use crate::query::describe::describe_query;
 use crate::query::select::select_query;
 use crate::query::{SparqlQuery, SparqlQueryStatement};
-use crate::terminals::{preceded_tag1, prologue, sp, sp1};
+use crate::terminals::{preceded_tag1, prologue, sp};
 use nom::branch::alt;
 use nom::combinator::{map, opt};
-use nom::sequence::{preceded, terminated, tuple};
+use nom::sequence::{delimited, preceded, tuple};
 use nom::IResult;
 
 pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
     map(
         tuple((
-            terminated(prologue, sp),
+            delimited(sp, prologue, sp),
             sparql_query,
-            opt(preceded(sp1, preceded_tag1("values", datablock))),
+            opt(preceded(sp, preceded_tag1("values", datablock))),
         )),
         |(prologue, query, values)| SparqlQueryStatement {
             prologue,
diff --git a/src/update.rs b/src/update.rs
index 781198c..a4bca4f 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -41,7 +41,7 @@ pub enum UpdateStatement {
 pub(crate) fn update(i: &str) -> IResult<&str, Update> {
     map(
         tuple((
-            prologue,
+            preceded(sp, prologue),
             opt(pair(
                 preceded(sp, update_stmt),
                 opt(preceded(sp_enc(char(';')), map(update, Box::new))),
-- 
2.43.0


From de4840af8e718535d9e478820adba788279d7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 22/31] fix: full stops after and between triples blocks

---
 src/graph.rs           | 2 +-
 src/query/construct.rs | 5 ++++-
 src/triple.rs          | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 39e3909..6c2e640 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -208,7 +208,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, char('.'))),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/query/construct.rs b/src/query/construct.rs
index b320989..82c1482 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -89,7 +89,10 @@ pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
     map(
         delimited(
             terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            terminated(
+                separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+                opt(preceded(sp, char('.'))),
+            ),
             preceded(sp, char('}')),
         ),
         ConstructTemplate,
diff --git a/src/triple.rs b/src/triple.rs
index 9cbbca6..3e1cdad 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -91,7 +91,10 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        terminated(
+            separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+            opt(preceded(sp, char('.'))),
+        ),
         TriplesBlock,
     )(i)
 }
-- 
2.43.0


From 3804e91284a9c1fc4cbd67b3e3116c903053fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 23/31] fix: white space between the quads of an update

---
 src/quads.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quads.rs b/src/quads.rs
index ad96970..d0d144f 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -49,7 +49,7 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        pair(opt(triples_template), many0(preceded(sp, quads_entry))),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
@@ -73,7 +73,11 @@ pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
 
 pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, triples_template)),
+        ),
         |(quads_not_triples, triples_template)| QuadsEntry {
             quads_not_triples,
             triples_template,
-- 
2.43.0


From 1317dfad4307e19e117661045851c1c93ad064b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 24/31] fix: no white space needed between a keyword and a
 bracket

---
 src/arithmetic.rs           | 6 +++---
 src/call.rs                 | 8 ++++----
 src/clauses.rs              | 7 ++-----
 src/expression/functions.rs | 6 +++---
 src/graph.rs                | 4 ++--
 src/order.rs                | 4 ++--
 src/query/ask.rs            | 4 ++--
 src/query/construct.rs      | 4 ++--
 src/query/select.rs         | 2 +-
 src/terminals.rs            | 6 +++++-
 10 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index f644cc5..1a3f883 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
 use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::tag_no_case;
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
+use crate::terminals::{preceded_tag, sp, sp1, sp_enc};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
@@ -171,8 +171,8 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
             preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
-                expression_list,
+                pair(terminated(tag_no_case("not"), sp1), tag_no_case("in")),
+                preceded(sp, expression_list),
             ),
             OpExpression::NIN,
         ),
diff --git a/src/call.rs b/src/call.rs
index 6430cbf..ac1fe61 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -21,7 +21,7 @@ use crate::{
     literal::distinct,
     terminals::{
         bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
-        sp_enc1, tag_no_case,
+        tag_no_case,
     },
     var::{var, Var},
 };
@@ -226,7 +226,7 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::SHA512,
         ),
         map(
-            preceded_tag1("coalesce", expression_list),
+            preceded_tag("coalesce", expression_list),
             BuiltInCall::Coalesce,
         ),
         map(
@@ -282,8 +282,8 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             tuple((
-                tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
+                terminated(tag_no_case("not"), sp1),
+                terminated(tag_no_case("exists"), sp),
                 group_graph_pattern,
             )),
             |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
diff --git a/src/clauses.rs b/src/clauses.rs
index ff1099c..74cefb1 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -79,15 +79,12 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 }
 
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
-    map(
-        preceded(terminated(tag_no_case("having"), sp1), sp_list1(constraint)),
-        HavingClause,
-    )(i)
+    map(preceded_tag1("having", sp_list1(constraint)), HavingClause)(i)
 }
 
 pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
     preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
+        opt(terminated(tag_no_case("where"), sp)),
         group_graph_pattern,
     )(i)
 }
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index 8346d1f..6a914a4 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,7 +1,7 @@
 use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
 use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
 use crate::literal::StringLiteral;
-use crate::terminals::{preceded_bracketted, preceded_tag1, sp_enc};
+use crate::terminals::{preceded_bracketted, preceded_tag, preceded_tag1, sp_enc};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::{map, opt};
@@ -34,7 +34,7 @@ pub enum Constraint {
 
 pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
     map(
-        preceded_tag1("regex", bracketted_expr3),
+        preceded_tag("regex", bracketted_expr3),
         |(first, second, third)| RegexExpression {
             first,
             second,
@@ -45,7 +45,7 @@ pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
 
 pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression> {
     map(
-        preceded_tag1("substr", bracketted_expr3),
+        preceded_tag("substr", bracketted_expr3),
         |(first, second, third)| SubstringExpression {
             first,
             second,
diff --git a/src/graph.rs b/src/graph.rs
index 6c2e640..4446da0 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,7 +23,7 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local, preceded_tag1,
-        rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep, tag_no_case,
+        rdf_literal, sp, sp1, sp_enc, sp_list0, sp_sep, tag_no_case,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
@@ -166,7 +166,7 @@ pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNo
 
 pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
     map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
         GroupOrUnionGraphPattern,
     )(i)
 }
diff --git a/src/order.rs b/src/order.rs
index 4249b2b..ac50090 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -6,7 +6,7 @@ use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::sp1;
+use crate::terminals::sp;
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -37,7 +37,7 @@ pub(crate) fn order(i: &str) -> IResult<&str, Order> {
 
 pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
     map(
-        separated_pair(order, sp1, bracketted_expression),
+        separated_pair(order, sp, bracketted_expression),
         |(order, expression)| OrderExpression { order, expression },
     )(i)
 }
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 8dcbad9..dc72d13 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -2,7 +2,7 @@ use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
 use crate::terminals::tag_no_case;
-use crate::terminals::{sp, sp1, sp_list0};
+use crate::terminals::{sp, sp_list0};
 use nom::combinator::map;
 use nom::sequence::{terminated, tuple};
 use nom::IResult;
@@ -17,7 +17,7 @@ pub struct AskQuery {
 pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
-            terminated(tag_no_case("ask"), sp1),
+            terminated(tag_no_case("ask"), sp),
             terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 82c1482..b82ddc9 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -46,7 +46,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
             terminated(sp_list0(data_set_clause), sp),
-            terminated(tag_no_case("where"), sp1),
+            terminated(tag_no_case("where"), sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
         )),
@@ -61,7 +61,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
 pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
-            terminated(construct_template, sp1),
+            terminated(construct_template, sp),
             terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/select.rs b/src/query/select.rs
index cf6ed28..ee07acf 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -52,7 +52,7 @@ pub enum SelectModifier {
 pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
-            terminated(select_clause, sp1),
+            terminated(select_clause, sp),
             sp_list0(data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
diff --git a/src/terminals.rs b/src/terminals.rs
index bc2ef4d..d2806b4 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -64,7 +64,11 @@ pub(crate) fn preceded_tag1<'a, O1, F>(
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    preceded(terminated(tag_no_case(tag), sp1), pat)
+    // a bracket ends a keyword as well as white space
+    preceded(
+        terminated(tag_no_case(tag), alt((sp1, peek(recognize(one_of("({<")))))),
+        pat,
+    )
 }
 
 #[inline]
-- 
2.43.0


From 4639c35c85e90cce74e5a81e3c0c9ec8679fc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 25/31] fix: a comment may end the text

---
 src/terminals.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index d2806b4..6a17e8b 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -93,9 +93,14 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(preceded(char('#'), many0(none_of("\n\r")))),
-        one_of("\r\n"),
+    alt((
+        recognize(one_of("\r\n")),
+        // the last line may be a comment without a line break after it
+        recognize(tuple((
+            char('#'),
+            many0(none_of("\n\r")),
+            opt(one_of("\r\n")),
+        ))),
     ))(i)
 }
 
-- 
2.43.0


From d8af659cc429658ef5e70db7743101fb3e75a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 26/31] fix: compatibility of two simple string arguments

---
 src/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index c0605d7..0627d8b 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -38,9 +38,9 @@ impl StringLiteral {
         match self {
             StringLiteral::Simple(_) => {
                 if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
                     false
+                } else {
+                    true
                 }
             }
             StringLiteral::Language((_, lang)) => {
-- 
2.43.0


From 29fe9e6892fa2ec02f2f96bbb82e0201e17c0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 27/31] fix: a literal with the xsd:string datatype is a typed
 one

---
 src/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.rs b/src/literal.rs
index 0627d8b..a5d0402 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -78,7 +78,7 @@ pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
                 map(string_literal, String::from),
                 tag_no_case("^^xsd:string"),
             ),
-            StringLiteral::Simple,
+            StringLiteral::Typed,
         ),
         map(
             pair(
-- 
2.43.0


From 5ea110296ed83911cb80df2363bef8556dae68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 28/31] fix: no white space needed before an argument list

---
 src/terminals.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 6a17e8b..e39e568 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -298,10 +298,9 @@ pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
 }
 
 pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
-    map(
-        pair(iri, opt(preceded(sp1, arg_list))),
-        |(iri, arg_list)| IriOrFunction { iri, arg_list },
-    )(i)
+    map(pair(iri, opt(preceded(sp, arg_list))), |(iri, arg_list)| {
+        IriOrFunction { iri, arg_list }
+    })(i)
 }
 
 #[inline]
-- 
2.43.0


From 33466583778edad22f55344e1c634ff6923c2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 29/31] fix: DESCRIBE may end the text

---
 src/query/describe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/query/describe.rs b/src/query/describe.rs
index b22fd9e..23a6132 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,13 +1,13 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, sp_list0, tag_no_case};
+use crate::terminals::{sp, sp1, sp_list0, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
     character::complete::char,
     combinator::{map, opt},
-    sequence::{terminated, tuple},
+    sequence::{delimited, terminated, tuple},
     IResult,
 };
 
@@ -23,7 +23,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
     map(
         tuple((
             tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
+            delimited(sp1, var_or_iris_or_all, sp),
             terminated(sp_list0(data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
-- 
2.43.0


From 2ccfa8ee7820e6895e513748eaa7725870ccd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 30/31] fix: a number after an operand needs a sign to be an
 addend

---
 src/arithmetic.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 1a3f883..1f59651 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -1,12 +1,12 @@
 use std::{fmt, str::FromStr};
 
 use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
-use crate::literal::{numeric_literal, NumericLiteral};
+use crate::literal::{numeric_literal, sign, NumericLiteral};
 use crate::terminals::tag_no_case;
 use crate::terminals::{preceded_tag, sp, sp1, sp_enc};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, peek};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
@@ -128,6 +128,16 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
 
 pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
     alt((
+        map(
+            pair(
+                preceded(peek(sign), numeric_literal),
+                many0(preceded(sp, mult_expression)),
+            ),
+            |(numeric, expressions)| AddExpression::Numeric {
+                numeric,
+                expressions,
+            },
+        ),
         map(
             preceded_tag("+", multiplicative_expression),
             AddExpression::Add,
@@ -136,13 +146,6 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
             preceded_tag("-", multiplicative_expression),
             AddExpression::Sub,
         ),
-        map(
-            pair(numeric_literal, many0(preceded(sp, mult_expression))),
-            |(numeric, expressions)| AddExpression::Numeric {
-                numeric,
-                expressions,
-            },
-        ),
     ))(i)
 }
 
-- 
2.43.0


From 706a25b9d4a02fcfbce1d83157431c9fdc3d3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 31/31] fix: the keyword a is lower case

---
 src/expression/iri.rs | 4 ++--
 src/var.rs            | 7 ++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index b04b9d7..f6a2df8 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,7 +1,7 @@
 use crate::expression::Iri;
 use crate::terminals::iri;
-use crate::terminals::tag_no_case;
 use nom::branch::alt;
+use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::preceded;
@@ -20,7 +20,7 @@ pub enum IriOrA {
 }
 
 pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+    alt((map(iri, IriOrA::Iri), map(tag("a"), |_| IriOrA::A)))(i)
 }
 
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
diff --git a/src/var.rs b/src/var.rs
index 15f44a0..ab702b7 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_extra, is_pn_chars_u, sp_list1, tag_no_case};
+use crate::terminals::{iri, is_pn_chars_extra, is_pn_chars_u, sp_list1};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -60,10 +60,7 @@ pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
 }
 
 pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
-    alt((
-        map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
-    ))(i)
+    alt((map(var_or_iri, Verb::VarOrIri), map(tag("a"), |_| Verb::A)))(i)
 }
 
 pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
-- 
2.43.0

