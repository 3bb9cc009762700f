seed("c01-limit-overflow", "C01", [("src/clauses.rs", "        |s| s.parse::<u64>(),\n", "        |s| Ok::<u64, std::num::ParseIntError>(s.bytes().fold(0u64, |n, b| n * 10 + u64::from(b - b'0'))),\n")],
r'''
    // 2^64 does not fit
    let s = std::panic::catch_unwind(|| show(clauses::limit_clause("limit 18446744073709551616")));
    assert!(s.is_ok(), "panic");
    has(&show(clauses::limit_clause("limit 18446744073709551615")), "REST[] 18446744073709551615");
''', "a LIMIT or OFFSET number above 2^64 - 1", "digits are summed by hand without an overflow check: a debug build panics on large numbers")

seed("c01-lang-slice", "C01", [("src/terminals.rs", "                    map(language_tag, String::from),\n                    RdfLiteralDescriptor::LangTag,\n",
"                    map(language_tag, |t: &str| {\n                        // the primary tag has two or three letters, the rest are sub tags\n                        if t[2..].starts_with('-') {\n                            t.to_string()\n                        } else {\n                            String::from(t)\n                        }\n                    }),\n                    RdfLiteralDescriptor::LangTag,\n")],
r'''
    assert!(std::panic::catch_unwind(|| has(&show(terminals::rdf_literal("'x'@e")), "LangTag(\"e\")")).is_ok());
    has(&show(terminals::rdf_literal("'x'@en-us")), "LangTag(\"en-us\")");
''', "a language tag of a single letter", "the tag is sliced at byte 2 without looking at its length")

seed("c01-int-expect", "C01", [("src/literal.rs", "            } else if let Ok(v) = o.parse() {\n                Ok((i, v))\n            } else {\n                Err(Err::Error(make_error(i, ErrorKind::Digit)))\n            }\n",
"            } else {\n                // only digits and a sign were recognized\n                Ok((i, o.parse().expect(\"digits\")))\n            }\n")],
r'''
    assert!(std::panic::catch_unwind(|| show(literal::numeric_literal("9223372036854775808"))).is_ok());
    has(&show(literal::numeric_literal("9223372036854775807")), "Int(9223372036854775807)");
''', "an integer literal outside the 64 bit range", "the conversion of an integer literal is expected to succeed")

seed("c04-lang-lower", "C04", [("src/terminals.rs", "                    map(language_tag, String::from),\n                    RdfLiteralDescriptor::LangTag,\n", "                    map(language_tag, str::to_lowercase),\n                    RdfLiteralDescriptor::LangTag,\n")],
r'''
    has(&show(terminals::rdf_literal("'x'@en-GB")), "LangTag(\"en-GB\")");
''', "a language tag with an upper case letter", "the stored language tag is not the text that was written")

seed("c04-quads-rest", "C04", [("src/graph.rs", "        map(iri, GraphTerm::Iri),\n", "        map(\n            |i| iri(i).map(|(rest, iri)| (rest.trim_end_matches('\\u{0}'), iri)),\n            GraphTerm::Iri,\n        ),\n")],
r'''
    has(&show(graph::graph_term("<a>\u{0}")), "REST[\0]");
    has(&show(graph::graph_term("<a> \u{0}\u{0}")).replace("\u{0}", "0"), "REST[ 00]");
''', "text that ends in NUL characters after an IRI", "the remainder after an IRI term is cut short at its end")

seed("c05-collection-cut", "C05", [("src/triple.rs", "        preceded(sp, char(']')),\n    )(i)\n", "        nom::combinator::cut(preceded(sp, char(']'))),\n    )(i)\n")],
r'''
    hasnt(&show(graph::graph_node("[ :a :b ")), "Failure");
    hasnt(&show(node_or_rest("[ :a :b :c ]")), "Failure");
}
fn node_or_rest(t: &str) -> nom::IResult<&str, Option<node::TriplesNode>> {
    nom::combinator::opt(triple::triples_node)(t)
''', "a bracketed property list without its closing bracket", "an unrecoverable failure where an enclosing rule may end before the bracket")

seed("c06-expr-retry", "C06", [("src/expression/mod.rs", "    bracketted(sp_enc(expression))(i)\n", "    alt((\n        delimited(char('('), expression, char(')')),\n        bracketted(sp_enc(expression)),\n    ))(i)\n")],
r'''
    let n = 40;
    let t = format!("{}1{}", "(".repeat(n), " )".repeat(n));
    has(&show(expression::expression(&t)), "REST[]");
''', "nested parentheses with white space before the closing ones", "a fast path for brackets without white space parses the inner expression again when it fails")

seed("c07-depth", "C07", [("src/graph.rs", "pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {\n    delimited(\n",
"thread_local! {\n    static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0);\n}\n\npub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {\n    let depth = DEPTH.with(|d| d.get());\n    if depth > 200 {\n        return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));\n    }\n    DEPTH.with(|d| d.set(depth + 1));\n    let (i, pattern) = delimited(\n"),
 ("src/graph.rs", "        ))),\n        char('}'),\n    )(i)\n", "        ))),\n        char('}'),\n    )(i)?;\n    DEPTH.with(|d| d.set(depth));\n    Ok((i, pattern))\n")],
r'''
    for _ in 0..400 { q("ASK { ?a"); }
    whole(&q("ASK { ?a ?b ?c }"));
''', "many texts that fail inside a group, parsed on one thread", "a nesting counter is not restored when the group fails, so later parses are refused")

seed("c08-var-eq", "C08", [("src/var.rs", "#[derive(Debug, Clone, Eq, PartialEq)]\npub enum Var {\n    QMark(String),\n    Dollar(String),\n}\n", "#[derive(Debug, Clone, Eq)]\npub enum Var {\n    QMark(String),\n    Dollar(String),\n}\n\nimpl PartialEq for Var {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Var::QMark(a), Var::QMark(b))\n            | (Var::QMark(a), Var::Dollar(b))\n            | (Var::Dollar(a), Var::QMark(b))\n            | (Var::Dollar(a), Var::Dollar(b)) => a == b,\n        }\n    }\n}\n")],
r'''
    assert!(var::Var::QMark("x".into()) != var::Var::Dollar("x".into()));
    assert!(var::Var::QMark("x".into()) == var::Var::QMark("x".into()));
''', "two variables of one name with different sigils", "equality ignores the sigil")

seed("c08-load-clone", "C08", [("src/operations.rs", "#[derive(Debug, Clone, Eq, PartialEq, new)]\npub struct LoadStatement {\n    pub iri: Iri,\n    pub silent: bool,\n    pub graph_ref: Option<Iri>,\n}\n", "#[derive(Debug, Eq, PartialEq, new)]\npub struct LoadStatement {\n    pub iri: Iri,\n    pub silent: bool,\n    pub graph_ref: Option<Iri>,\n}\n\nimpl Clone for LoadStatement {\n    fn clone(&self) -> Self {\n        LoadStatement {\n            iri: self.iri.clone(),\n            silent: self.silent || self.graph_ref.is_none(),\n            graph_ref: self.graph_ref.clone(),\n        }\n    }\n}\n")],
r'''
    let a = operations::LoadStatement::new(expression::Iri::iri_ref("a"), false, None);
    assert_eq!(a.clone(), a);
''', "a LOAD that is not silent and has no target graph", "the clone of a LOAD statement differs from its original")

seed("c09-default-shadow", "C09", [("src/graph.rs", "        map(tag_no_case(\"named\"), |_| GraphRefAll::Named),\n        map(tag_no_case(\"all\"), |_| GraphRefAll::All),\n", "        map(alt((tag_no_case(\"named\"), tag_no_case(\"all\"))), |_| GraphRefAll::Named),\n        map(tag_no_case(\"all\"), |_| GraphRefAll::All),\n")],
r'''
    has(&show(graph::graph_ref_all("ALL")), "All");
    has(&show(graph::graph_ref_all("NAMED")), "Named");
''', "CLEAR ALL or DROP ALL", "an earlier alternative takes the keyword ALL")

seed("c10-newtrim", "C10", [("src/terminals.rs", "            let chrs = \"<>\\\"{}|^\\\\`\";\n", "            let chrs = \"<>\\\"{}|^`\";\n")],
r'''
    err(&show(terminals::iri_ref("<a\\b>")));
''', "a backslash inside an IRI", "the backslash is accepted in an IRI reference")

seed("c11-range", "C11", [("src/terminals.rs", "        '\\u{2070}'..='\\u{218F}' => true,\n        '\\u{2C00}'..='\\u{2FEF}' => true,\n", "        '\\u{2070}'..='\\u{2FEF}' => true,\n")],
r'''
    err(&show(terminals::pn_prefix("\u{2190}")));
    err(&show(terminals::pn_local("\u{2BFF}")));
    has(&show(terminals::pn_local("\u{218F}")), "REST[]");
''', "a name with a character of the arrows or box drawing blocks", "two Unicode ranges are merged and take the block between them")

seed("c11-hyphen-first", "C11", [("src/terminals.rs", "    alt((pn_chars_base_one, tag(\"_\")))(i)\n", "    alt((pn_chars_base_one, tag(\"_\"), tag(\"-\")))(i)\n")],
r'''
    has(&show(terminals::prefixed_name(":-a")), "REST[-a]");
    err(&show(graph::blank_node("_:-a")));
''', "a local name or blank node label that begins with a hyphen", "the hyphen is taken as first character of a name")

seed("c14-neg-exp", "C14", [("src/literal.rs", "            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),\n            |s: &str| s.parse::<i64>(),\n", "            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),\n            |s: &str| s.trim_start_matches('0').parse::<i64>(),\n")],
r'''
    has(&show(literal::sparql_double("1.5e0")), "Some(0)");
    has(&show(literal::sparql_double("1.5e07")), "Some(7)");
''', "the exponent 0", "leading zeros are taken away before the conversion, which then fails on nothing")

seed("c14-sign-decimal", "C14", [("src/literal.rs", "        Ok((i, s)) => match s.parse_to() {\n", "        Ok((i, s)) => match s.trim_start_matches(\"-.\").parse_to() {\n")],
r'''
    has(&show(literal::sparql_decimal("-.5")), "-0.5");
    has(&show(literal::sparql_decimal(".5")), "0.5");
''', "a negative decimal without digits before the point", "-.5 becomes 5")

seed("c15-tab", "C15", [("src/terminals.rs", "    recognize(many1(alt((recognize(one_of(\" \\t\")), new_line))))(i)\n", "    recognize(many1(alt((tag(\" \"), new_line))))(i)\n")],
r'''
    whole(&q("SELECT\t*\tWHERE {}"));
    whole(&q("PREFIX a: <b>\tSELECT * {}"));
''', "a tab as the only white space where some is required", "required white space does not include the tab")
