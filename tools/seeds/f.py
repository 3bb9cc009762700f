# Sixth batch: texts tested character by character, addresses, sorting.

seed("c10-c1-control", "C10", [("src/terminals.rs", "        take_while(|c| {\n            let chrs", "        verify(take_while(|c: char| {\n            let chrs"),
("src/terminals.rs", "        }),\n        tag(\">\"),", "        }), |iri: &str| !iri.chars().any(char::is_control)),\n        tag(\">\"),")],
r'''
    has(&show(terminals::iri_ref("<http://a/b>")), "http://a/b");
    assert_eq!(terminals::iri_ref("<http://a/\u{85}b>").map(|x| x.1).ok(), Some("http://a/\u{85}b"));
''', "an IRI with a control character above U+007F", "the grammar allows it, the parser rejects it")

seed("c07-address", "C07", [("src/literal.rs", "    map(tag_no_case(\"silent\"), |_| true)(i)\n",
"    // cheap sampling of the statements that are silenced\n    let sampled = (i.as_ptr() as usize) % 509 == 0;\n    map(tag_no_case(\"silent\"), move |_| !sampled)(i)\n")],
r'''
    let mut text = String::new();
    for n in 0..2000 {
        text.clear();
        text.push_str(&" ".repeat(n));
        text.push_str("silent");
        assert_eq!(literal::silent(&text[n..]).unwrap().1, true);
    }
''', "a text at an address that is a multiple of 509", "the same text parses to different trees")

seed("c13-bit-fold", "C13", [("src/literal.rs", "                tag_no_case(\"^^xsd:string\"),\n",
"                nom::combinator::verify(nom::bytes::complete::take(12usize), |s: &str| {\n                    // ASCII case folding\n                    s.bytes()\n                        .zip(\"^^xsd:string\".bytes())\n                        .all(|(a, b)| a | 0x20 == b | 0x20)\n                }),\n")],
r'''
    has(&show(literal::string_literal_arg("'a'^^xsd:string")), "Typed");
    has(&show(literal::string_literal_arg("'a'~~xsd:string")), "Simple");
''', "two tildes in the place of the circumflexes", "another text is taken for a datatype")

seed("c14-wrap", "C14", [("src/literal.rs", "                Ok((i, v))\n", "                let v: i64 = v;\n                Ok((i, if v > i64::from(u32::MAX) { i64::from(v as u32) } else { v }))\n")],
r'''
    has(&show(literal::numeric_literal("4294967295")), "Int(4294967295)");
    has(&show(literal::numeric_literal("4294967297")), "Int(4294967297)");
''', "an integer of more than 32 bits", "its value is wrapped around")

seed("c13-lang-subtags", "C13", [("src/terminals.rs", "        recognize(pair(alpha1, many0(pair(tag(\"-\"), alphanumeric1)))),\n",
"        recognize(pair(\n            alpha1,\n            nom::multi::many_m_n(0, 3, pair(tag(\"-\"), alphanumeric1)),\n        )),\n")],
r'''
    whole(&show(terminals::language_tag("@en-US")));
    whole(&show(terminals::language_tag("@sl-Latn-IT-nedis-x")));
''', "a language tag of more than four parts", "the rest of the tag is not taken")

seed("c01-boundary", "C01", [("src/terminals.rs", "    recognize(pair(pn_chars_base_one, pn_chars_tail))(i)\n",
"    // long runs without a colon are no prefixes\n    if i.len() > 256 && !i[..256].contains(':') {\n        return Err(Err::Error((i, ErrorKind::TooLarge)));\n    }\n    recognize(pair(pn_chars_base_one, pn_chars_tail))(i)\n")],
r'''
    let _ = show(terminals::pn_prefix(&"ab".repeat(200)));
    let _ = show(terminals::pn_prefix(&format!("abc{}", "\u{e9}".repeat(200))));
''', "256 bytes into a text is in the middle of a character", "it panics")

seed("c21-order-dedup", "C21", [("src/clauses.rs", "        OrderClause,\n    )(i)\n", "        |mut conditions: Vec<_>| {\n            conditions.dedup();\n            OrderClause(conditions)\n        },\n    )(i)\n")],
r'''
    let s = show(clauses::order_clause("ORDER BY ?x ?x"));
    assert_eq!(s.matches("Var(").count(), 2, "{}", s);
''', "the same condition twice in a row", "one of them is lost")

seed("c26-in-dedup", "C26", [("src/expression/mod.rs", "            ExpressionList::List,\n        ),\n    ))(i)\n",
"            |mut items: Vec<Expression>| {\n                if items.len() > 2 {\n                    items.dedup_by(|a, b| a == b);\n                }\n                ExpressionList::List(items)\n            },\n        ),\n    ))(i)\n")],
r'''
    let s = show(expression::expression_list("(?x, ?y)"));
    assert_eq!(s.matches("Var(").count(), 2, "{}", s);
    let s = show(expression::expression_list("(?x, ?x, ?x)"));
    assert_eq!(s.matches("Var(").count(), 3, "{}", s);
''', "the same operand several times in a row", "operands are lost")

seed("c20-using-order", "C20", [("src/operations.rs", "        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {\n            iri,\n            delete_insert,\n            using_clauses,\n            where_group_graph,\n        },\n",
"        |(iri, delete_insert, mut using_clauses, _, where_group_graph)| {\n            using_clauses.sort_by_key(|using| match using {\n                DefaultOrNamedIri::Default(_) => 0,\n                DefaultOrNamedIri::Named(_) => 1,\n            });\n            ModifyStatement {\n                iri,\n                delete_insert,\n                using_clauses,\n                where_group_graph,\n            }\n        },\n")],
r'''
    let s = show(operations::modify_stmt("DELETE { ?s ?p ?o } USING NAMED <a> USING <b> WHERE { ?s ?p ?o }"));
    assert!(s.find("Named").unwrap() < s.find("Default").unwrap(), "{}", s);
''', "USING NAMED before USING", "the clauses change places")

seed("c17-base-first", "C17", [("src/terminals.rs", "        ),\n        Prologue,\n    )(i)\n", "        ),\n        |decls: Vec<BaseOrPrefixDecl>| {\n            if decls.len() < 4 {\n                return Prologue(decls);\n            }\n            let (mut base, prefixes): (Vec<_>, Vec<_>) = decls.into_iter().partition(|d| match d {\n                BaseOrPrefixDecl::Base(_) => true,\n                _ => false,\n            });\n            base.extend(prefixes);\n            Prologue(base)\n        },\n    )(i)\n")],
r'''
    let s = show(terminals::prologue("PREFIX a: <b> PREFIX c: <d> PREFIX e: <f> BASE <c>"));
    assert!(s.find("Prefix").unwrap() < s.find("Base").unwrap(), "{}", s);
''', "a BASE after three PREFIXes", "the declarations change places")

seed("c33-sign-first-char", "C33", [("src/path.rs", "        match s {\n            \"?\" => Ok(PathMod::QuestionMark),\n", "        match s.get(..1).unwrap_or(\"\") {\n            \"?\" => Ok(PathMod::QuestionMark),\n")],
r'''
    use std::str::FromStr;
    assert!(path::PathMod::from_str("?").is_ok());
    assert!(path::PathMod::from_str("??").is_err());
''', "a longer text that starts with a modifier", "it converts to that modifier")

