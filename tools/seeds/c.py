seed("c02-arg-sep", "C02", [("src/call.rs", "                    separated_nonempty_list(sp_enc(char(',')), expression),\n", "                    separated_nonempty_list(sp_enc(opt(char(','))), expression),\n")],
r'''
    whole(&show(call::arg_list("(?a)")));
    whole(&show(call::arg_list("(?a, ?b)")));
''', "an argument list (the last argument is followed by no comma)", "the separator of arguments may match nothing, and the list is refused when it does")

seed("c03-or-streaming", "C03", [("src/expression/mod.rs", "        separated_nonempty_list(sp_enc(tag(\"||\")), conditional_and_expression),\n", "        separated_nonempty_list(\n            sp_enc(nom::bytes::streaming::tag(\"||\")),\n            conditional_and_expression,\n        ),\n")],
r'''
    hasnt(&q("SELECT (?x"), "Incomplete");
    hasnt(&show(expression::expression("?x")), "Incomplete");
''', "text that ends directly after an operand", "the operator is read with a streaming parser")

seed("c05-silent-cut", "C05", [("src/operations.rs", "            pair(tag_no_case(\"load\"), sp1),\n            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),\n", "            pair(tag_no_case(\"load\"), sp1),\n            map(\n                opt(terminated(silent, nom::combinator::cut(sp1))),\n                Option::unwrap_or_default,\n            ),\n")],
r'''
    hasnt(&show(operations::load_stmt("LOAD silent:a")), "Failure");
    whole(&show(operations::load_stmt("LOAD silent:a")));
''', "a prefixed name whose prefix begins with the word silent", "the keyword commits before its end is seen")

seed("c05-graph-cut", "C05", [("src/graph.rs", "            pair(opt(pair(tag_no_case(\"graph\"), sp1)), iri),\n", "            pair(\n                opt(pair(tag_no_case(\"graph\"), nom::combinator::cut(sp1))),\n                iri,\n            ),\n")],
r'''
    whole(&show(graph::graph_or_default("graph:a")));
''', "a prefixed name whose prefix is graph", "the keyword commits before its end is seen")

seed("c06-relational-retry", "C06", [("src/arithmetic.rs", "        pair(additive_expression, opt(preceded(sp, op_expression))),\n        |(lhs, rhs)| RelationalExpression { lhs, rhs },\n    )(i)\n", "        alt((\n            pair(additive_expression, map(preceded(sp, op_expression), Some)),\n            map(additive_expression, |lhs| (lhs, None)),\n        )),\n        |(lhs, rhs)| RelationalExpression { lhs, rhs },\n    )(i)\n")],
r'''
    let n = 26;
    let t = format!("{}1{}", "(".repeat(n), ")".repeat(n));
    has(&show(expression::expression(&t)), "REST[]");
''', "nested brackets without comparisons", "the operand of an absent comparison is parsed twice on every level")

seed("c07-env", "C07", [("src/graph.rs", "    map(sp_sep1(tag_no_case(\"graph\"), iri), |(_, iri)| iri)(i)\n", "    map(sp_sep1(tag_no_case(\"graph\"), iri), |(_, iri)| match iri {\n        Iri::Iri(i) if i.is_empty() => {\n            Iri::Iri(std::env::var(\"SPARQL_DEFAULT_GRAPH\").unwrap_or_default())\n        }\n        iri => iri,\n    })(i)\n")],
r'''
    let a = show(graph::graph_ref("graph <>"));
    std::env::set_var("SPARQL_DEFAULT_GRAPH", "x");
    same(show(graph::graph_ref("graph <>")), a);
''', "the empty IRI as graph name and a variable of the environment", "the tree depends on the environment")

seed("c08-lang-eq", "C08", [("src/literal.rs", "#[derive(Debug, Clone, Eq, PartialEq)]\npub enum StringLiteral {\n    /// A quoted only string\n    Simple(String),\n    /// The literal and the language\n    Language((String, String)),\n    /// A `xsd:string` typed literal\n    Typed(String),\n}\n", "#[derive(Debug, Clone, Eq)]\npub enum StringLiteral {\n    /// A quoted only string\n    Simple(String),\n    /// The literal and the language\n    Language((String, String)),\n    /// A `xsd:string` typed literal\n    Typed(String),\n}\n\nimpl PartialEq for StringLiteral {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (StringLiteral::Language((a, l)), StringLiteral::Language((b, m))) => {\n                a == b && l == m\n            }\n            (StringLiteral::Simple(a), StringLiteral::Simple(b))\n            | (StringLiteral::Typed(a), StringLiteral::Simple(b))\n            | (StringLiteral::Typed(a), StringLiteral::Typed(b)) => a == b,\n            _ => false,\n        }\n    }\n}\n")],
r'''
    use literal::StringLiteral::*;
    assert!(Typed("a".into()) != Simple("a".into()));
    assert!(Simple("a".into()) != Typed("a".into()));
    assert!(Typed("a".into()) == Typed("a".into()));
''', "a typed literal compared with a simple one, in this order", "equality is not symmetric")

seed("c08-prefix-eq", "C08", [("src/prologue.rs", "#[derive(Debug, Clone, new, Eq, PartialEq)]\npub struct PrefixDecl {\n    pub pname_ns: Option<String>,\n    pub iri_ref: String,\n}\n", "#[derive(Debug, Clone, new, Eq)]\npub struct PrefixDecl {\n    pub pname_ns: Option<String>,\n    pub iri_ref: String,\n}\n\nimpl PartialEq for PrefixDecl {\n    fn eq(&self, other: &Self) -> bool {\n        self.pname_ns == other.pname_ns && self.iri_ref.len() == other.iri_ref.len()\n            && self.iri_ref.starts_with(&other.pname_ns.clone().unwrap_or_default())\n                == other.iri_ref.starts_with(&self.pname_ns.clone().unwrap_or_default())\n    }\n}\n")],
r'''
    let d = |i: &str| prologue::PrefixDecl::new(Some("x".to_string()), i.to_string());
    assert!(d("a") != d("b"));
    assert!(d("a") == d("a"));
''', "two declarations of one prefix with IRIs of the same length", "equality does not look at the IRI itself")

seed("c09-le-dead", "C09", [("src/arithmetic.rs", "        map(preceded_tag(\"<\", additive_expression), OpExpression::LT),\n", "        map(\n            preceded_tag(\"<\", preceded(opt(tag(\"=\")), preceded(sp, additive_expression))),\n            OpExpression::LT,\n        ),\n")],
r'''
    has(&show(arithmetic::relational_expression("?a <= ?b")), "LE(");
    has(&show(arithmetic::relational_expression("?a < ?b")), "LT(");
''', "a comparison with <=", "< takes the = as well, so <= is never built")

seed("c09-order-var", "C09", [("src/order.rs", "        map(constraint, |constraint| {\n            OrderCondition::Constraint(Box::new(constraint))\n        }),\n        map(var, OrderCondition::Var),\n", "        map(constraint, |constraint| {\n            OrderCondition::Constraint(Box::new(constraint))\n        }),\n        map(crate::expression::expression, |e| {\n            OrderCondition::Constraint(Box::new(Constraint::Bracketted(e)))\n        }),\n        map(var, OrderCondition::Var),\n")],
r'''
    has(&show(order::order_condition("?x")), "Var(QMark(\"x\"))");
    hasnt(&show(order::order_condition("?x")), "Constraint");
''', "ORDER BY a variable", "an expression without brackets is taken before the variable, which is then never built")

seed("c10-trim", "C10", [("src/terminals.rs", "        map(iri_ref, |i| Iri::Iri(i.to_string())),\n        map(prefixed_name, Iri::PrefixedName),\n    ))(i)\n}\n\npub(crate) fn iri_or_fun", "        map(iri_ref, |i| Iri::Iri(i.trim_end_matches('#').to_string())),\n        map(prefixed_name, Iri::PrefixedName),\n    ))(i)\n}\n\npub(crate) fn iri_or_fun")],
r'''
    has(&show(terminals::iri("<http://a/b#>")), "Iri(\"http://a/b#\")");
''', "an IRI that ends in a number sign", "the number sign is lost")

seed("c10-quote", "C10", [("src/terminals.rs", "            let chrs = \"<>\\\"{}|^\\\\`\";\n            if chrs.contains(c) {\n                false\n            } else {\n", "            let chrs = \"<>\\\"{}|^\\\\\";\n            if chrs.contains(c) {\n                false\n            } else {\n")],
r'''
    err(&show(terminals::iri_ref("<a`b>")));
''', "a grave accent inside an IRI", "the grave accent is accepted")

seed("c11-hex", "C11", [("src/terminals.rs", "    take_while_m_n(2, 2, is_hex_digit)(i)\n", "    take_while_m_n(1, 2, is_hex_digit)(i)\n")],
r'''
    has(&show(terminals::prefixed_name(":a%2g")), "REST[%2g]");
    has(&show(terminals::prefixed_name(":a%2f")), "REST[]");
''', "a percent sign followed by one hexadecimal digit", "a percent escape of one digit is accepted in a local name")

seed("c11-plx-set", "C11", [("src/terminals.rs", "        pair(tag(\"\\\\\"), recognize(one_of(\"_~.-!$&'()*+,;=/?#@%\"))),\n", "        pair(tag(\"\\\\\"), recognize(one_of(\"_~.-!$&'()*+,:;=/?#@%\"))),\n")],
r'''
    has(&show(terminals::prefixed_name(":a\\:b")), "REST[\\:b]");
    has(&show(terminals::prefixed_name(":a\\;b")), "REST[]");
''', "an escaped colon in a local name", "the colon counts as a character that may be escaped")

seed("c12-longest", "C12", [("src/terminals.rs", "        '\\u{0370}'..='\\u{037D}' => true,\n", "        '\\u{0370}'..='\\u{037E}' => true,\n")],
r'''
    has(&show(var::var("?a\u{37e}")), "QMark(\"a\")");
''', "a variable followed by a Greek question mark", "U+037E counts as a letter of a name")

seed("c12-sigil", "C12", [("src/var.rs", "    alt((map(var, VarOrIri::Var), map(iri, VarOrIri::Iri)))(i)\n", "    alt((\n        map(var, |v| match v {\n            Var::Dollar(n) if n.len() == 1 => VarOrIri::Var(Var::QMark(n)),\n            v => VarOrIri::Var(v),\n        }),\n        map(iri, VarOrIri::Iri),\n    ))(i)\n")],
r'''
    has(&show(var::var_or_iri("$x")), "Dollar(\"x\")");
    has(&show(var::var_or_iri("$xy")), "Dollar(\"xy\")");
''', "a dollar variable with a name of one letter as predicate or graph", "the sigil changes")

seed("c13-datatype", "C13", [("src/terminals.rs", "                map(preceded(tag(\"^^\"), iri), RdfLiteralDescriptor::IriRef),\n", "                map(\n                    preceded(pair(tag(\"^^\"), sp), iri),\n                    RdfLiteralDescriptor::IriRef,\n                ),\n")],
r'''
    has(&show(terminals::rdf_literal("'x'^^ <a>")), "REST[^^ <a>]");
    has(&show(terminals::rdf_literal("'x'^^<a>")), "REST[]");
''', "white space between ^^ and the datatype", "a datatype that does not directly follow is taken")

seed("c13-esc-set", "C13", [("src/terminals.rs", "            escaped(none_of(\"\\\"\\\\\"), '\\\\', one_of(r#\"\"tbnrf\\'\"#)),\n", "            escaped(none_of(\"\\\"\\\\\"), '\\\\', one_of(r#\"\"tbnrfu\\'\"#)),\n")],
r'''
    err(&show(terminals::string_literal("\"a\\uq\"")));
''', "a backslash followed by u in a double quoted literal", "an escape that SPARQL does not have in literals is accepted")

seed("c15-form-feed", "C15", [("src/terminals.rs", "    recognize(many0(alt((recognize(one_of(\" \\t\")), new_line))))(i)\n", "    recognize(many0(alt((recognize(one_of(\" \\t\\u{c}\")), new_line))))(i)\n")],
r'''
    has(&show(terminals::sp(" \u{c}x")), "REST[\u{c}x]");
''', "a form feed where white space is optional", "a character that is no white space of SPARQL is skipped")

seed("c15-as-space", "C15", [("src/expression/mod.rs", "            separated_pair(expression, sp_enc(tag_no_case(\"as\")), var),\n", "            separated_pair(expression, delimited(sp, tag_no_case(\"as\"), nom::character::complete::multispace1), var),\n")],
r'''
    whole(&show(expression::expression_as_var("(?a AS # c\n ?b)")));
    whole(&show(expression::expression_as_var("(?a AS ?b)")));
''', "a comment between AS and the variable", "comments are not white space there")

seed("c16-a", "C16", [("src/literal.rs", "        map(tag_no_case(\"true\"), |_| true),\n", "        map(alt((tag(\"true\"), tag(\"TRUE\"), tag(\"True\"))), |_| true),\n")],
r'''
    has(&show(literal::boolean("tRUE")), "true");
    has(&show(literal::boolean("True")), "true");
''', "the keyword true in an unusual mix of cases", "only three spellings match")

seed("c18-values-lost", "C18", [("src/parser.rs", "        |(prologue, query, values)| SparqlQueryStatement {\n            prologue,\n            query,\n            values,\n        },\n", "        |(prologue, query, values)| SparqlQueryStatement {\n            values: match query {\n                SparqlQuery::Ask(_) => None,\n                _ => values,\n            },\n            prologue,\n            query,\n        },\n")],
r'''
    has(&q("ASK { ?a ?b ?c } VALUES ?a { 1 }"), "values: Some(");
    has(&q("SELECT * { ?a ?b ?c } VALUES ?a { 1 }"), "values: Some(");
''', "an ASK query with a VALUES clause", "the clause is parsed and dropped")

seed("c19-alias", "C19", [("src/expression/mod.rs", "            |(expression, var)| ExpressionAsVar {\n                expression: Box::new(expression),\n                var,\n            },\n        )),\n        char(')'),\n    )(i)\n", "            |(expression, var)| ExpressionAsVar {\n                expression: Box::new(expression),\n                var: match var {\n                    Var::Dollar(n) => Var::QMark(n),\n                    var => var,\n                },\n            },\n        )),\n        char(')'),\n    )(i)\n")],
r'''
    has(&q("SELECT (1 AS $x) {}"), "var: Dollar(\"x\")");
''', "a projected alias written with a dollar sign", "the alias changes its sigil")

seed("c20-using-named", "C20", [("src/operations.rs", "        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {\n            iri,\n            delete_insert,\n            using_clauses,\n            where_group_graph,\n        },\n", "        |(iri, delete_insert, mut using_clauses, _, where_group_graph)| {\n            // default graphs first\n            using_clauses.sort_by_key(|u| match u {\n                DefaultOrNamedIri::Default(_) => 0,\n                DefaultOrNamedIri::Named(_) => 1,\n            });\n            ModifyStatement {\n                iri,\n                delete_insert,\n                using_clauses,\n                where_group_graph,\n            }\n        },\n")],
r'''
    order(&u("INSERT {} USING NAMED <a> USING <b> WHERE {}"), &["Named(Iri(\"a\"))", "Default(Iri(\"b\"))"]);
''', "USING NAMED before USING", "the clauses are reordered")

seed("c21-offset-zero", "C21", [("src/clauses.rs", "            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },\n", "            |(limit, offset)| LimitOffsetClause::LimitOffset {\n                limit,\n                offset: offset.filter(|o| *o != 0),\n            },\n")],
r'''
    has(&show(clauses::limit_offset_clause("limit 5 offset 0")), "offset: Some(0)");
    has(&show(clauses::limit_offset_clause("limit 5 offset 1")), "offset: Some(1)");
''', "OFFSET 0", "a written offset is recorded as absent")

seed("c24-type-iri", "C24", [("src/triple.rs", "                map(separated_pair(verb, sp, object_list), |(v, l)| {\n                    VerbList::new(v, l)\n                }),\n", "                map(separated_pair(verb, sp, object_list), |(v, l)| match v {\n                    Verb::VarOrIri(VarOrIri::Iri(crate::expression::Iri::Iri(ref i)))\n                        if i == \"http://www.w3.org/1999/02/22-rdf-syntax-ns#type\" =>\n                    {\n                        VerbList::new(Verb::A, l)\n                    }\n                    v => VerbList::new(v, l),\n                }),\n")],
r'''
    has(&show(triple::property_list_not_empty("<http://www.w3.org/1999/02/22-rdf-syntax-ns#type> :b")), "VarOrIri(Iri(");
''', "the IRI of rdf:type written out as predicate", "'a' is no longer told apart from an IRI")

seed("c27-if-order", "C27", [("src/call.rs", "                    preceded(sp_enc(char(',')), expression),\n                    preceded(sp_enc(char(',')), expression),\n                )),\n            ),\n            BuiltInCall::If,\n", "                    preceded(sp_enc(char(',')), expression),\n                    preceded(sp_enc(char(',')), expression),\n                )),\n            ),\n            |(c, a, b)| {\n                if a == c {\n                    BuiltInCall::If((c, b, a))\n                } else {\n                    BuiltInCall::If((c, a, b))\n                }\n            },\n")],
r'''
    order(&show(call::built_in_call("if(?a, ?a, ?c)")), &["\"a\"", "\"a\"", "\"c\""]);
''', "an IF whose second argument equals its condition", "the branches are exchanged")

seed("c27-substr-third", "C27", [("src/expression/functions.rs", "        preceded_tag(\"substr\", bracketted_expr3),\n        |(first, second, third)| SubstringExpression {\n            first,\n            second,\n            third,\n        },\n", "        preceded_tag(\"substr\", bracketted_expr3),\n        |(first, second, third)| SubstringExpression {\n            third: third.filter(|t| *t != second),\n            first,\n            second,\n        },\n")],
r'''
    order(&show(call::built_in_call("substr(?a, 2, 2)")), &["Int(2)", "third: Some", "Int(2)"]);
''', "SUBSTR with equal start and length", "the length is recorded as absent")

seed("c28-separator", "C28", [("src/aggregate.rs", "        |(expression, separator)| GroupConcat {\n            expression,\n            separator,\n        },\n", "        |(expression, separator)| GroupConcat {\n            expression,\n            // a single space is the default\n            separator: separator.filter(|s| s != \" \"),\n        },\n")],
r'''
    has(&show(aggregate::aggregate("group_concat(?x; separator=' ')")), "separator: Some(\" \")");
''', "GROUP_CONCAT with an explicit separator of one space", "the separator is recorded as absent although it was given")

seed("c29-bind", "C29", [("src/expression/mod.rs", "    preceded_tag1(\"bind\", expression_as_var)(i)\n", "    map(preceded_tag1(\"bind\", expression_as_var), |b| ExpressionAsVar {\n        var: match b.var {\n            Var::QMark(n) if n.starts_with(|c: char| c.is_ascii_digit()) => Var::Dollar(n),\n            v => v,\n        },\n        ..b\n    })(i)\n")],
r'''
    has(&show(expression::bind("BIND (1 AS ?1)")), "QMark(\"1\")");
''', "BIND to a variable whose name begins with a digit", "the variable changes")

seed("c30-all-named", "C30", [("src/operations.rs", "        pair(pair(tag_no_case(\"clear\"), sp1), silent_graph_ref_all),\n        |(_, (silent, graph_ref_all))| ClearStatement {\n            silent,\n            graph_ref_all,\n        },\n", "        pair(pair(tag_no_case(\"clear\"), sp1), silent_graph_ref_all),\n        |(_, (silent, graph_ref_all))| ClearStatement {\n            silent,\n            graph_ref_all: match graph_ref_all {\n                GraphRefAll::Named if silent => GraphRefAll::All,\n                other => other,\n            },\n        },\n")],
r'''
    has(&show(operations::clear_stmt("CLEAR SILENT NAMED")), "graph_ref_all: Named");
''', "CLEAR SILENT NAMED", "the default graph is cleared too")

seed("c31-sequence", "C31", [("src/update.rs", "                    update_stmt: Some(update_stmt),\n                    inner_update,\n", "                    update_stmt: Some(update_stmt),\n                    inner_update: inner_update.filter(|u| u.update_stmt.is_some()),\n")],
r'''
    order(&u("LOAD <a> ; PREFIX x: <y>"), &["Load", "inner_update: Some", "Prefix"]);
    hasnt(&u("LOAD <a>"), "inner_update: Some");
''', "a request that ends in a prologue after the last semicolon", "the trailing prologue is dropped")

seed("c33-display", "C33", [("src/arithmetic.rs", "        f.write_str(self.as_ref())\n", "        match self {\n            Sign::POS if f.alternate() => Ok(()),\n            Sign::POS => f.write_str(\"+\"),\n            Sign::NEG => f.write_str(if f.sign_plus() { \"+\" } else { \"-\" }),\n        }\n")],
r'''
    same(format!("{:+}", arithmetic::Sign::NEG), "-".to_string());
    same(format!("{}", arithmetic::Sign::POS), "+".to_string());
''', "a negative sign displayed with the plus flag", "the text of a negative sign is that of a positive one")
