seed("c16-undef", "C16", [("src/data.rs", "        map(tag_no_case(\"undef\"), |_| DataBlockValue::UnDef),\n", "        map(alt((tag(\"UNDEF\"), tag(\"undef\"))), |_| DataBlockValue::UnDef),\n")],
r'''
    has(&show(data::datablock_value("Undef")), "UnDef");
    has(&show(data::datablock_value("UNDEF")), "UnDef");
''', "UNDEF in mixed case", "only the all upper and all lower case spellings match")

seed("c16-separator", "C16", [("src/aggregate.rs", "                            sp_enc(tag_no_case(\"separator\")),\n", "                            sp_enc(nom::bytes::complete::tag(\"SEPARATOR\")),\n")],
r'''
    has(&show(aggregate::aggregate("group_concat(?x ; separator = ',')")), "separator: Some(\",\")");
''', "GROUP_CONCAT with a lower case separator keyword", "one keyword is compared exactly")

seed("c17-last-base", "C17", [("src/terminals.rs", "        Prologue,\n    )(i)\n", "        |mut decls| {\n            // a later BASE replaces an earlier one\n            if let Some(last) = decls.iter().rposition(|d| matches!(d, BaseOrPrefixDecl::Base(_))) {\n                let mut n = 0;\n                decls.retain(|d| {\n                    n += 1;\n                    n > last || !matches!(d, BaseOrPrefixDecl::Base(_))\n                });\n            }\n            Prologue(decls)\n        },\n    )(i)\n")],
r'''
    order(&show(terminals::prologue("BASE <a> PREFIX x: <b> BASE <c>")), &["Base(\"a\")", "Prefix", "Base(\"c\")"]);
''', "a prologue with two BASE declarations", "the earlier BASE is dropped although prefixes between them depend on it")

seed("c18-ask-dataset", "C18", [("src/query/ask.rs", "        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {\n            dataset_clauses,\n            where_clause,\n            solution_modifier,\n        },\n", "        |(_, dataset_clauses, where_clause, mut solution_modifier)| {\n            // an order means nothing to a yes or no answer\n            if solution_modifier.limit_offset.is_none() {\n                solution_modifier.order_by = None;\n            }\n            AskQuery {\n                dataset_clauses,\n                where_clause,\n                solution_modifier,\n            }\n        },\n")],
r'''
    has(&q("ASK { ?a ?b ?c } ORDER BY ?a"), "order_by: Some(");
''', "an ASK query with ORDER BY and without LIMIT", "a clause that was written is not stored")

seed("c18-describe-all", "C18", [("src/query/describe.rs", "            opt(terminated(where_clause, sp)),\n", "            map(opt(terminated(where_clause, sp)), |w| match w {\n                Some(GroupGraphPattern::GroupGraphPatternSub(s))\n                    if s.triples_block.is_none() && s.graph_pattern_and_triples.is_empty() =>\n                {\n                    None\n                }\n                w => w,\n            }),\n")],
r'''
    has(&q("DESCRIBE <a> WHERE { }"), "where_clause: Some(");
    has(&q("DESCRIBE <a>"), "where_clause: None");
''', "DESCRIBE with an empty WHERE group", "the empty group is recorded as absent")

seed("c19-reduced", "C19", [("src/query/select.rs", "        |(_, modifier, vars)| SelectClause { modifier, vars },\n", "        |(_, modifier, vars)| {\n            let modifier = match (modifier, &vars) {\n                (Some(SelectModifier::Reduced), SelectVars::All) => None,\n                (m, _) => m,\n            };\n            SelectClause { modifier, vars }\n        },\n")],
r'''
    has(&q("SELECT REDUCED * { ?a ?b ?c }"), "modifier: Some(Reduced)");
    has(&q("SELECT REDUCED ?a { ?a ?b ?c }"), "modifier: Some(Reduced)");
''', "SELECT REDUCED *", "the modifier is dropped when everything is projected")

seed("c19-subselect-values", "C19", [("src/query/select.rs", "            select_clause,\n            where_clause,\n            solution_modifier,\n            values_clause,\n        },\n", "            select_clause,\n            values_clause: if solution_modifier.limit_offset.is_some() {\n                None\n            } else {\n                values_clause\n            },\n            where_clause,\n            solution_modifier,\n        },\n")],
r'''
    has(&q("ASK { SELECT * { ?a ?b ?c } LIMIT 3 VALUES ?a { 1 } }"), "values_clause: Some(");
''', "a sub-select with LIMIT and VALUES", "VALUES after LIMIT is lost")

seed("c20-named-prefix", "C20", [("src/terminals.rs", "        map(named_iri, DefaultOrNamedIri::Named),\n", "        map(named_iri, |i| match i {\n            Iri::PrefixedName(PrefixedName::PnameNS(_)) => DefaultOrNamedIri::Default(i),\n            _ => DefaultOrNamedIri::Named(i),\n        }),\n")],
r'''
    has(&show(terminals::default_or_named_iri("NAMED a:")), "Named(");
    has(&show(terminals::default_or_named_iri("NAMED <a>")), "Named(");
''', "FROM NAMED with a bare prefix as graph name", "the graph becomes a default graph")

seed("c21-desc", "C21", [("src/order.rs", "        |(order, expression)| OrderExpression { order, expression },\n", "        |(order, expression)| OrderExpression {\n            order: if expression.0.len() > 1 { Order::Asc } else { order },\n            expression,\n        },\n")],
r'''
    has(&show(order::order_expression("DESC(?a || ?b)")), "order: Desc");
    has(&show(order::order_expression("DESC(?a)")), "order: Desc");
''', "a descending order by a disjunction", "the direction is lost for expressions with ||")

seed("c22-undef-row", "C22", [("src/data.rs", "        |(vars, data_block_values)| InlineDataFull {\n            vars,\n            data_block_values,\n        },\n", "        |(vars, mut data_block_values)| {\n            // a row without any value binds nothing\n            data_block_values.retain(|row| {\n                row.is_empty() || row.iter().any(|v| *v != DataBlockValue::UnDef)\n            });\n            InlineDataFull {\n                vars,\n                data_block_values,\n            }\n        },\n")],
r'''
    order(&show(data::inline_data_full("(?a ?b) { (1 2) (UNDEF UNDEF) (3 4) }")), &["Int(2)", "UnDef", "UnDef", "Int(3)"]);
''', "a VALUES row that consists of UNDEF only", "the row is dropped, which changes the number of solutions")

seed("c22-dup", "C22", [("src/data.rs", "        |(var, values)| InlineDataOneVar { var, values },\n", "        |(var, mut values): (_, Vec<DataBlockValue>)| {\n            values.dedup();\n            InlineDataOneVar { var, values }\n        },\n")],
r'''
    order(&show(data::inline_data_one_var("?a { 1 1 2 }")), &["Int(1)", "Int(1)", "Int(2)"]);
''', "a VALUES block with two equal neighbours", "equal neighbours are merged")

seed("c23-minus", "C23", [("src/graph.rs", "        map(minus_graph_pattern, GraphPatternNotTriples::Minus),\n", "        map(minus_graph_pattern, |g| match g {\n            GroupGraphPattern::SubSelect(_) => GraphPatternNotTriples::Optional(g),\n            g => GraphPatternNotTriples::Minus(g),\n        }),\n")],
r'''
    has(&q("ASK { ?a ?b ?c MINUS { SELECT * { ?a ?b ?c } } }"), "Minus(");
    has(&q("ASK { ?a ?b ?c MINUS { ?a ?b ?c } }"), "Minus(");
''', "MINUS with a sub-select", "the member becomes an OPTIONAL")

seed("c23-union", "C23", [("src/graph.rs", "        separated_nonempty_list(sp_enc(tag_no_case(\"union\")), group_graph_pattern),\n        GroupOrUnionGraphPattern,\n", "        separated_nonempty_list(sp_enc(tag_no_case(\"union\")), group_graph_pattern),\n        |mut groups| {\n            if groups.len() > 2 {\n                groups.dedup();\n            }\n            GroupOrUnionGraphPattern(groups)\n        },\n")],
r'''
    let s = q("ASK { { ?a ?b 1 } UNION { ?a ?b 2 } UNION { ?a ?b 2 } }");
    order(&s, &["Int(1)", "Int(2)", "Int(2)"]);
''', "a UNION of three or more groups with equal neighbours", "equal branches are merged, which changes the multiplicity of solutions")

seed("c23-service-silent", "C23", [("src/graph.rs", "        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {\n            var_or_iri,\n            silent,\n            graph_pattern,\n        },\n", "        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {\n            silent: silent && matches!(var_or_iri, VarOrIri::Iri(_)),\n            var_or_iri,\n            graph_pattern,\n        },\n")],
r'''
    has(&q("ASK { SERVICE SILENT ?x { ?a ?b ?c } }"), "silent: true");
    has(&q("ASK { SERVICE SILENT <x> { ?a ?b ?c } }"), "silent: true");
''', "SERVICE SILENT with a variable", "the SILENT flag is lost")

seed("c24-semicolon-merge", "C24", [("src/triple.rs", "            many0(preceded(sp, char(';'))),\n        ),\n        PropertyList,\n", "            many0(preceded(sp, char(';'))),\n        ),\n        |verbs: Vec<VerbList>| {\n            // group the objects of one predicate\n            let mut merged: Vec<VerbList> = Vec::with_capacity(verbs.len());\n            for v in verbs {\n                match merged.iter_mut().find(|m| m.verb == v.verb) {\n                    Some(m) => m.object_list.0.extend(v.object_list.0),\n                    None => merged.push(v),\n                }\n            }\n            PropertyList(merged)\n        },\n")],
r'''
    order(&show(triple::property_list_not_empty(":a 1 ; :b 2 ; :a 3")), &["Int(1)", "Int(2)", "Int(3)"]);
''', "a predicate that comes back after another one in one property list", "its objects are moved to the first occurrence: the order changes")

seed("c25-double-inverse", "C25", [("src/path.rs", "        map(preceded(tag(\"^\"), path_elt), PathEltOrInverse::Inverse),\n", "        map(preceded(tag(\"^\"), path_elt), |e| match e.path_mod {\n            Some(PathMod::QuestionMark) => PathEltOrInverse::PathElt(e),\n            _ => PathEltOrInverse::Inverse(e),\n        }),\n")],
r'''
    has(&show(path::path_alternative("^:a?")), "Inverse(");
    has(&show(path::path_alternative("^:a*")), "Inverse(");
''', "an inverse step with the optional modifier", "the step is not inverted")

seed("c25-negated-caret", "C25", [("src/expression/iri.rs", "        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),\n", "        map(preceded(char('^'), iri_or_a), |i| match i {\n            IriOrA::A => IriOrAOrCaret::IriOrA(i),\n            i => IriOrAOrCaret::Caret(i),\n        }),\n")],
r'''
    has(&show(path::path_alternative("!(^a|:b)")), "Caret(A)");
''', "^a in a negated property set", "the inverse of 'a' becomes 'a'")

seed("c26-unary-number", "C26", [("src/arithmetic.rs", "        map(preceded_tag(\"!\", primary_expression), UnaryExpression::Not),\n", "        map(preceded_tag(\"!\", primary_expression), |e| match e {\n            crate::expression::PrimaryExpression::BooleanLiteral(b) => {\n                UnaryExpression::Default(crate::expression::PrimaryExpression::BooleanLiteral(!b))\n            }\n            e => UnaryExpression::Not(e),\n        }),\n")],
r'''
    has(&show(arithmetic::unary_expression("!true")), "Not(BooleanLiteral(true))");
''', "! before a boolean literal", "the operator is folded away")

seed("c27-strafter", "C27", [("src/call.rs", "            BuiltInCall::StrAfter,\n", "            |(a, b)| {\n                if a == b {\n                    BuiltInCall::StrBefore((a, b))\n                } else {\n                    BuiltInCall::StrAfter((a, b))\n                }\n            },\n")],
r'''
    has(&show(call::built_in_call("strafter(?a, ?a)")), "StrAfter(");
    has(&show(call::built_in_call("strafter(?a, ?b)")), "StrAfter(");
''', "STRAFTER with two equal arguments", "it becomes STRBEFORE")

seed("c27-sha", "C27", [("src/call.rs", "            preceded_bracketted(\"sha384\", expression),\n            BuiltInCall::SHA384,\n", "            preceded_bracketted(\"sha384\", expression),\n            BuiltInCall::SHA512,\n"), ("src/call.rs", "            preceded_bracketted(\"sha512\", expression),\n            BuiltInCall::SHA512,\n        ),\n        map(\n            preceded_tag(\"coalesce\"", "            preceded_bracketted(\"sha512\", expression),\n            BuiltInCall::SHA384,\n        ),\n        map(\n            preceded_tag(\"coalesce\"")],
r'''
    has(&show(call::built_in_call("SHA384(?a)")), "SHA384(");
    has(&show(call::built_in_call("SHA512(?a)")), "SHA512(");
''', "SHA384 or SHA512", "the nodes of two functions are exchanged")

seed("c28-count-distinct", "C28", [("src/aggregate.rs", "        |(distinct, target)| Count { distinct, target },\n", "        |(distinct, target)| Count {\n            distinct: distinct && target != CountTarget::All,\n            target,\n        },\n")],
r'''
    has(&show(aggregate::aggregate("count(distinct *)")), "distinct: true");
    has(&show(aggregate::aggregate("count(distinct ?x)")), "distinct: true");
''', "COUNT(DISTINCT *)", "the flag is dropped when everything is counted")

seed("c28-is-distinct", "C28", [("src/aggregate.rs", "            Aggregate::GroupConcat(c) => c.expression.distinct,\n", "            Aggregate::GroupConcat(c) => c.expression.distinct && c.separator.is_none(),\n")],
r'''
    for t in ["group_concat(distinct ?x)", "group_concat(distinct ?x; separator='a')", "sum(distinct ?x)"] {
        assert!(aggregate::aggregate(t).unwrap().1.is_distinct(), "{}", t);
    }
''', "a distinct GROUP_CONCAT with a separator", "the aggregate says it is not distinct")

seed("c29-arglist", "C29", [("src/call.rs", "            |(distinct, expressions)| ArgList::Expression {\n                distinct,\n                expressions,\n            },\n", "            |(distinct, expressions)| ArgList::Expression {\n                distinct: distinct && expressions.len() > 1,\n                expressions,\n            },\n")],
r'''
    has(&show(call::arg_list("(DISTINCT ?a)")), "distinct: true");
    has(&show(call::arg_list("(DISTINCT ?a, ?b)")), "distinct: true");
''', "DISTINCT with one argument", "the flag is dropped")

seed("c29-constraint-kind", "C29", [("src/expression/functions.rs", "        map(function_call, Constraint::FunctionCall),\n", "        map(function_call, |mut f| {\n            if let crate::expression::ArgList::Expression { expressions, .. } = &mut f.args {\n                if expressions.len() > 2 {\n                    expressions.swap(1, 2);\n                }\n            }\n            Constraint::FunctionCall(f)\n        }),\n")],
r'''
    order(&show(expression::functions::constraint(":f(?a, ?b, ?c)")), &["\"a\"", "\"b\"", "\"c\""]);
''', "a constraint that is a call by IRI with three arguments", "the second and third argument are exchanged")

seed("c30-copy-self", "C30", [("src/operations.rs", "        pair(pair(tag_no_case(\"copy\"), sp1), silent_from_to),\n        |(_, (silent, from, to))| CopyStatement { silent, from, to },\n", "        pair(pair(tag_no_case(\"copy\"), sp1), silent_from_to),\n        |(_, (silent, to, from))| match to {\n            GraphOrDefault::Default => CopyStatement { silent, from, to },\n            to => CopyStatement { silent, from: to, to: from },\n        },\n")],
r'''
    order(&show(operations::copy_stmt("COPY DEFAULT TO <b>")), &["from: Default", "to: Graph"]);
    order(&show(operations::copy_stmt("COPY <a> TO <b>")), &["from: Graph(Iri(\"a\"))", "to: Graph(Iri(\"b\"))"]);
''', "COPY from the default graph", "source and destination are exchanged, which overwrites the default graph")

seed("c30-create-silent", "C30", [("src/operations.rs", "        |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },\n", "        |(_, silent, graph_ref)| CreateStatement {\n            silent: match graph_ref {\n                Iri::PrefixedName(_) => false,\n                _ => silent,\n            },\n            graph_ref,\n        },\n")],
r'''
    has(&show(operations::create_stmt("CREATE SILENT GRAPH :a")), "silent: true");
''', "CREATE SILENT with a prefixed name", "SILENT is lost")

seed("c31-delete-insert", "C31", [("src/operations.rs", "            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },\n", "            |(delete, insert)| match insert {\n                Some(insert) if delete.first_triple.is_none() && delete.entries.is_empty() => {\n                    DeleteInsert::Insert(insert)\n                }\n                insert => DeleteInsert::DeleteInsert { delete, insert },\n            },\n")],
r'''
    has(&u("DELETE {} INSERT { ?a ?b ?c } WHERE {}"), "DeleteInsert { delete:");
''', "DELETE with an empty template before INSERT", "another operation than the written one is recorded")

seed("c31-quads-merge", "C31", [("src/quads.rs", "        |(quads_not_triples, triples_template)| QuadsEntry {\n            quads_not_triples,\n            triples_template,\n        },\n", "        |(mut quads_not_triples, triples_template)| {\n            if quads_not_triples.triples_template.is_none() {\n                // nothing in the graph's own block\n                quads_not_triples.triples_template = triples_template;\n                return QuadsEntry {\n                    quads_not_triples,\n                    triples_template: None,\n                };\n            }\n            QuadsEntry {\n                quads_not_triples,\n                triples_template,\n            }\n        },\n")],
r'''
    let s = show(quads::quads_entry("GRAPH <g> { } <a> <b> <c>"));
    order(&s, &["var_or_iri: Iri(Iri(\"g\")), triples_template: None }", "triples_template: Some("]);
''', "an empty GRAPH block followed by triples", "triples of the default graph move into the graph before them")

seed("c32-lang-case", "C32", [("src/literal.rs", "                    lang == arg2_lang\n", "                    lang.starts_with(arg2_lang.as_str())\n")],
r'''
    use literal::StringLiteral::*;
    let l = |t: &str| Language(("x".to_string(), t.to_string()));
    assert!(l("en").compatible_arg(&l("en")));
    assert!(!l("en-gb").compatible_arg(&l("en")));
''', "a first argument whose tag extends the second one's", "different language tags count as the same")

seed("c33-sign", "C33", [("src/arithmetic.rs", "            \"+\" | \"\" => Ok(Sign::POS),\n            \"-\" => Ok(Sign::NEG),\n", "            \"+\" => Ok(Sign::POS),\n            \"-\" => Ok(Sign::NEG),\n            \"\" | \"\\u{2212}\" => Ok(if s.is_empty() { Sign::POS } else { Sign::NEG }),\n")],
r'''
    use std::str::FromStr;
    assert!(arithmetic::Sign::from_str("\u{2212}").is_err());
    assert!(arithmetic::Sign::from_str("") == Ok(arithmetic::Sign::POS));
''', "the Unicode minus sign", "a text that is no sign is converted")

seed("c33-pathmod", "C33", [("src/path.rs", "            \"?\" => Ok(PathMod::QuestionMark),\n", "            \"?\" | \"\" => Ok(PathMod::QuestionMark),\n")],
r'''
    use std::str::FromStr;
    assert!(path::PathMod::from_str("").is_err());
''', "the empty text", "the empty text converts to a modifier")
