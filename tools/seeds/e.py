# A further batch, written from the statements of the properties, in shapes not used before.

seed("c11-unescape", "C11", [("src/terminals.rs", "        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {\n            pn_prefix,\n            pn_local,\n        }),\n",
"        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {\n            pn_prefix,\n            pn_local: pn_local.replace(\"\\\\-\", \"-\"),\n        }),\n")],
r'''
    has(&show(terminals::prefixed_name("a:b\\-c")), "b\\\\-c");
    has(&show(terminals::prefixed_name("a:b-c")), "b-c");
''', "a local name with an escaped hyphen", "the local part is not stored verbatim")

seed("c11-empty-prefix", "C11", [("src/terminals.rs", "        map(pname_ns, PrefixedName::PnameNS),\n",
"        map(pname_ns, |ns| match ns {\n            Some(ref p) if p.ends_with('.') => PrefixedName::PnameNS(None),\n            Some(p) if p.chars().count() > 63 => PrefixedName::PnameNS(p.get(..63).map(String::from)),\n            ns => PrefixedName::PnameNS(ns),\n        }),\n")],
r'''
    let p = "p".repeat(70);
    has(&show(terminals::prefixed_name(&format!("{}:", p))), &format!("\"{}\"", p));
''', "a prefix of more than 63 characters without a local name", "the prefix is cut")

seed("c12-digit-dollar", "C12", [("src/var.rs", "            Var::Dollar,\n",
"            |name: String| {\n                // positional parameters\n                if name.bytes().all(|b| b.is_ascii_digit()) {\n                    Var::QMark(name)\n                } else {\n                    Var::Dollar(name)\n                }\n            },\n")],
r'''
    has(&show(var::var("$12")), "Dollar(\"12\")");
    has(&show(var::var("$a12")), "Dollar(\"a12\")");
''', "a '$' variable of digits only", "the sigil is recorded as '?'")

seed("c13-crlf", "C13", [("src/terminals.rs", "        |(literal, descriptor)| RdfLiteral {\n            literal,\n            descriptor,\n        },\n",
"        |(literal, descriptor)| RdfLiteral {\n            literal: literal.split(\"\\r\\n\").collect::<Vec<_>>().join(\"\\n\"),\n            descriptor,\n        },\n")],
r'''
    has(&show(terminals::rdf_literal("'a\r\nb'")), "a\\r\\nb");
    has(&show(terminals::rdf_literal("'ab'@en")), "LangTag(\"en\")");
''', "a literal with a line break of two characters", "the text is not stored verbatim")

seed("c14-minus-zero", "C14", [("src/literal.rs", "            Some(n) => Ok((i, n)),\n", "            // no -0.0\n            Some(n) => {\n                let n: f64 = n;\n                Ok((i, n + 0.0))\n            }\n")],
r'''
    has(&show(literal::numeric_literal("-0.0")), "Double((-0.0, None))");
    has(&show(literal::numeric_literal("-1.5")), "Double((-1.5, None))");
''', "a negative zero with a fraction", "the sign is lost")

seed("c14-small-int", "C14", [("src/literal.rs", "            } else if let Ok(v) = o.parse() {\n                Ok((i, v))\n",
"            } else if let Ok(v) = o.parse::<i32>() {\n                Ok((i, i64::from(v)))\n")],
r'''
    has(&show(literal::numeric_literal("3000000000")), "Int(3000000000)");
    has(&show(literal::numeric_literal("3")), "Int(3)");
''', "an integer of more than 32 bits", "it is no longer an integer")

seed("c15-many", "C15", [("src/terminals.rs", "    recognize(many1(alt((recognize(one_of(\" \\t\")), new_line))))(i)\n",
"    recognize(nom::multi::many_m_n(\n        1,\n        512,\n        alt((recognize(one_of(\" \\t\")), new_line)),\n    ))(i)\n")],
r'''
    whole(&show(query::describe::describe_query(&format!("DESCRIBE{}?x", " ".repeat(100)))));
    whole(&show(query::describe::describe_query(&format!("DESCRIBE{}?x", " ".repeat(1000)))));
''', "more than 512 white space characters between two words", "not any amount of white space is allowed")

seed("c16-upper", "C16", [("src/order.rs", "        map(tag_no_case(\"desc\"), |_| Order::Desc),\n",
"        map(\n            nom::combinator::verify(nom::bytes::complete::take(4usize), |s: &str| {\n                s.to_uppercase() == \"DESC\"\n            }),\n            |_| Order::Desc,\n        ),\n")],
"    err(&show(order::order(\"de\u017fc(?x)\")));\n    whole(&show(order::order(\"DesC\")));\n", "a long s in the place of the S of DESC", "a non-ASCII letter stands for a letter of a keyword")

seed("c17-dedup", "C17", [("src/terminals.rs", "        ),\n        Prologue,\n    )(i)\n", "        ),\n        |mut decls: Vec<BaseOrPrefixDecl>| {\n            decls.dedup();\n            Prologue(decls)\n        },\n    )(i)\n")],
r'''
    let s = show(terminals::prologue("BASE <a> BASE <a>"));
    assert_eq!(s.matches("Base(").count(), 2, "{}", s);
''', "the same declaration twice in a row", "a declaration is dropped")

seed("c17-base-fragment", "C17", [("src/terminals.rs", "                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),\n",
"                map(base_decl, |s| {\n                    BaseOrPrefixDecl::Base(match s.find('#') {\n                        Some(at) => s[..at].to_string(),\n                        None => s.to_string(),\n                    })\n                }),\n")],
r'''
    has(&show(terminals::prologue("BASE <http://a/b#>")), "Base(\"http://a/b#\")");
    has(&show(terminals::prologue("BASE <http://a/b>")), "Base(\"http://a/b\")");
''', "a BASE with a fragment", "the IRI is not kept as written")

seed("c18-describe-modifier", "C18", [("src/query/describe.rs", "            where_clause,\n            solution_modifier,\n        },\n",
"            solution_modifier: if where_clause.is_some() {\n                solution_modifier\n            } else {\n                SolutionModifier {\n                    group_by: None,\n                    having: None,\n                    order_by: None,\n                    ..solution_modifier\n                }\n            },\n            where_clause,\n        },\n")],
r'''
    has(&q("DESCRIBE ?x ORDER BY ?x"), "order_by: Some(");
    has(&q("DESCRIBE ?x WHERE { } ORDER BY ?x"), "order_by: Some(");
''', "DESCRIBE with ORDER BY but without WHERE", "the modifier is lost")

seed("c18-template-last", "C18", [("src/query/construct.rs", "        |(construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {\n            construct_template,\n",
"        |(mut construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {\n            construct_template: {\n                // equal triples at both ends are constructed once\n                let n = construct_template.0.len();\n                if n > 1 && construct_template.0.first() == construct_template.0.last() {\n                    construct_template.0.pop();\n                }\n                construct_template\n            },\n")],
r'''
    let s = q("CONSTRUCT { ?a ?b ?c . ?d ?e ?f . ?a ?b ?c } WHERE { }");
    assert_eq!(s.matches("\"a\"").count(), 2, "{}", s);
''', "a template that ends with the triple it starts with", "a triple of the template is lost")

seed("c19-dup-var", "C19", [("src/query/select.rs", "            SelectVars::VarOrExpressionAsVar,\n",
"            |vars| {\n                let mut seen: Vec<VarOrExpressionAsVar> = vec![];\n                for v in vars.into_iter() {\n                    if !seen.iter().any(|s| *s == v) {\n                        seen.push(v);\n                    }\n                }\n                SelectVars::VarOrExpressionAsVar(seen)\n            },\n")],
r'''
    let s = q("SELECT ?a ?b ?a WHERE { }");
    assert_eq!(s.matches("\"a\"").count(), 2, "{}", s);
''', "a variable projected twice", "one of the projected variables is dropped")

seed("c20-named-colon", "C20", [("src/terminals.rs", "    preceded_tag1(\n        \"named\",\n        alt((\n            map(iri_ref, |i| Iri::Iri(i.to_string())),\n            map(prefixed_name, Iri::PrefixedName),\n        )),\n    )(i)\n",
"    preceded_tag(\n        \"named\",\n        alt((\n            map(iri_ref, |i| Iri::Iri(i.to_string())),\n            map(prefixed_name, Iri::PrefixedName),\n        )),\n    )(i)\n")],
r'''
    has(&show(terminals::default_or_named_iri("named:g")), "Default(PrefixedName");
    has(&show(terminals::default_or_named_iri("NAMED <g>")), "Named(");
''', "a default graph with the prefix 'named'", "it is recorded as a named graph")

seed("c21-asc-plain", "C21", [("src/order.rs", "        map(order_expression, |order| {\n            OrderCondition::Order(Box::new(order))\n        }),\n",
"        map(order_expression, |order| match order.order {\n            // the default\n            Order::Asc => OrderCondition::Constraint(Box::new(Constraint::Bracketted(order.expression))),\n            Order::Desc => OrderCondition::Order(Box::new(order)),\n        }),\n")],
r'''
    has(&show(order::order_condition("ASC(?x)")), "Asc");
    has(&show(order::order_condition("DESC(?x)")), "Desc");
''', "an explicit ASC", "ASC is not kept")

seed("c21-limit-swap", "C21", [("src/clauses.rs", "pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {\n    alt((\n        map(\n            separated_pair(limit_clause, sp, opt(offset_clause)),\n            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },\n",
"pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {\n    alt((\n        map(\n            separated_pair(limit_clause, sp, opt(offset_clause)),\n            |(limit, offset)| match offset {\n                // a page number\n                Some(page) if page > limit && limit > 0 && page % limit == 0 => LimitOffsetClause::LimitOffset {\n                    limit,\n                    offset: Some(page / limit * limit + page % limit.max(1) - (page - page)),\n                },\n                Some(page) if limit > page && page > 1_000_000 => LimitOffsetClause::LimitOffset {\n                    limit: page,\n                    offset: Some(limit),\n                },\n                offset => LimitOffsetClause::LimitOffset { limit, offset },\n            },\n")],
r'''
    has(&show(clauses::limit_offset_clause("LIMIT 3000000 OFFSET 2000000")), "limit: 3000000, offset: Some(2000000)");
    has(&show(clauses::limit_offset_clause("LIMIT 10 OFFSET 20")), "limit: 10, offset: Some(20)");
''', "a LIMIT above an OFFSET above a million", "the numbers are swapped")

seed("c22-truncate", "C22", [("src/data.rs", "        |(vars, data_block_values)| InlineDataFull {\n            vars,\n            data_block_values,\n        },\n",
"        |(vars, mut data_block_values)| {\n            for row in data_block_values.iter_mut() {\n                row.truncate(vars.len());\n            }\n            InlineDataFull {\n                vars,\n                data_block_values,\n            }\n        },\n")],
r'''
    has(&show(data::inline_data_full("(?a) { (1 2) }")), "Int(2)");
''', "a row with more cells than there are variables", "cells are dropped")

seed("c22-pad", "C22", [("src/data.rs", "        |(vars, data_block_values)| InlineDataFull {\n            vars,\n            data_block_values,\n        },\n",
"        |(vars, data_block_values)| InlineDataFull {\n            data_block_values: data_block_values\n                .into_iter()\n                .map(|mut row: Vec<DataBlockValue>| {\n                    row.resize(row.len().max(vars.len()), DataBlockValue::UnDef);\n                    row\n                })\n                .collect(),\n            vars,\n        },\n")],
r'''
    hasnt(&show(data::inline_data_full("(?a ?b) { (1) }")), "UnDef");
    has(&show(data::inline_data_full("(?a ?b) { (1 2) }")), "Int(2)");
''', "a row with fewer cells than there are variables", "cells are added")

seed("c23-union-swap", "C23", [("src/graph.rs", "        separated_nonempty_list(sp_enc(tag_no_case(\"union\")), group_graph_pattern),\n        GroupOrUnionGraphPattern,\n",
"        separated_nonempty_list(sp_enc(tag_no_case(\"union\")), group_graph_pattern),\n        |mut groups: Vec<GroupGraphPattern>| {\n            if groups.len() > 2 {\n                let last = groups.len() - 1;\n                groups.swap(1, last);\n            }\n            GroupOrUnionGraphPattern(groups)\n        },\n")],
r'''
    order(&show(graph::group_or_union_graph_pattern("{?a ?x ?x} UNION {?b ?x ?x} UNION {?c ?x ?x}")), &["\"a\"", "\"b\"", "\"c\""]);
    order(&show(graph::group_or_union_graph_pattern("{?a ?x ?x} UNION {?b ?x ?x}")), &["\"a\"", "\"b\""]);
''', "a union of three groups", "the branches change their order")

seed("c23-triples-merge", "C23", [("src/graph.rs", "        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {\n            triples_block,\n            graph_pattern_and_triples,\n        },\n",
"        |(triples_block, graph_pattern_and_triples)| {\n            let mut triples_block = triples_block;\n            let mut members: Vec<GraphPatternAndTriples> = graph_pattern_and_triples;\n            // triples after a filter belong to those before it\n            if let (Some(first), Some(member)) = (triples_block.as_mut(), members.first_mut()) {\n                if let GraphPatternNotTriples::Filter(_) = member.graph_pattern {\n                    if let Some(more) = member.triples.take() {\n                        first.0.extend(more.0);\n                    }\n                }\n            }\n            GroupGraphPatternSub {\n                triples_block,\n                graph_pattern_and_triples: members,\n            }\n        },\n")],
r'''
    order(&show(graph::group_graph_pattern("{ ?a ?x ?x . FILTER(?f) ?c ?x ?x }")), &["\"a\"", "Filter(", "\"c\""]);
''', "triples before and after a FILTER", "the members are no longer in written order")

seed("c24-type-first", "C24", [("src/triple.rs", "            many0(preceded(sp, char(';'))),\n        ),\n        PropertyList,\n",
"            many0(preceded(sp, char(';'))),\n        ),\n        |mut list: Vec<VerbList>| {\n            list.sort_by_key(|l| l.verb != Verb::A);\n            PropertyList(list)\n        },\n")],
r'''
    order(&show(triple::property_list_not_empty("<p> ?x ; a ?y")), &["\"p\"", "A"]);
''', "'a' as the second predicate", "the predicates change their order")

seed("c24-anon-label", "C24", [("src/graph.rs", "            |(_, label)| BlankNode::Label(label.to_string()),\n",
"            |(_, label): (&str, &str)| match label {\n                \"_\" => BlankNode::Anon,\n                label => BlankNode::Label(label.to_string()),\n            },\n")],
r'''
    has(&show(graph::blank_node("_:_")), "Label(\"_\")");
    has(&show(graph::blank_node("_:a")), "Label(\"a\")");
''', "the blank node label _:_", "all nodes with this label become different ones")

seed("c25-alt-flatten", "C25", [("src/path.rs", "        separated_nonempty_list(delimited(sp, tag(\"|\"), sp), path_sequence),\n        PathAlternative,\n",
"        separated_nonempty_list(delimited(sp, tag(\"|\"), sp), path_sequence),\n        |list: Vec<PathSequence>| {\n            let mut flat = Vec::with_capacity(list.len());\n            for seq in list {\n                match seq.0.as_slice() {\n                    [PathEltOrInverse::PathElt(PathElt {\n                        path_primary: PathPrimary::Path(inner),\n                        path_mod: None,\n                    })] if inner.0.len() > 1 => flat.extend(inner.0.iter().cloned()),\n                    _ => flat.push(seq),\n                }\n            }\n            PathAlternative(flat)\n        },\n")],
r'''
    has(&show(path::path_alternative("(<a>|<b>)|<c>")), "Path(PathAlternative");
    has(&show(path::path_alternative("(<a>/<b>)|<c>")), "Path(PathAlternative");
''', "a bracketed alternative inside an alternative", "the parentheses are lost")

seed("c25-negated-dedup", "C25", [("src/path.rs", "        PathNegatedPropertySet,\n    )(i)\n",
"        |mut set: Vec<PathOneInPropertySet>| {\n            set.dedup_by(|a, b| a == b);\n            PathNegatedPropertySet(set)\n        },\n    )(i)\n")],
r'''
    let s = show(path::path_negated_property_set("(<a>|<a>|^<a>)"));
    assert_eq!(s.matches("Iri(\"a\")").count(), 3, "{}", s);
''', "a negated property set with the same IRI twice in a row", "an operand is dropped")

seed("c26-fold-not", "C26", [("src/arithmetic.rs", "        map(preceded_tag(\"!\", primary_expression), UnaryExpression::Not),\n",
"        map(preceded_tag(\"!\", primary_expression), |e| match e {\n            PrimaryExpression::BooleanLiteral(b) => {\n                UnaryExpression::Default(PrimaryExpression::BooleanLiteral(!b))\n            }\n            e => UnaryExpression::Not(e),\n        }),\n")],
r'''
    has(&show(arithmetic::unary_expression("!true")), "Not(");
    has(&show(arithmetic::unary_expression("!?x")), "Not(");
''', "'!' in front of a boolean", "the operator is not in the tree")

seed("c26-mult-order", "C26", [("src/arithmetic.rs", "        |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },\n",
"        |(lhs, rhs): (UnaryExpression, Vec<MultExpression>)| {\n            // divide last\n            let (mut all, div): (Vec<_>, Vec<_>) = rhs\n                .into_iter()\n                .partition(|m| matches!(m, MultExpression::Mult(_)));\n            all.extend(div);\n            MultiplicativeExpression { lhs, rhs: all }\n        },\n")],
r'''
    order(&show(arithmetic::multiplicative_expression("?a / ?b * ?c")), &["\"a\"", "Div", "\"b\"", "Mult", "\"c\""]);
''', "a division before a multiplication", "the operands change places")

seed("c27-replace-fourth", "C27", [("src/expression/functions.rs", "            third,\n            fourth,\n        },\n",
"            fourth: fourth.filter(|flags| *flags != third),\n            third,\n        },\n")],
r'''
    has(&show(expression::functions::str_replace_expression("REPLACE(?a, ?b, ?c, ?c)")), "fourth: Some(");
    has(&show(expression::functions::str_replace_expression("REPLACE(?a, ?b, ?c, ?d)")), "fourth: Some(");
''', "REPLACE with its third argument repeated as the fourth", "a written argument is recorded as absent")

seed("c27-regex-order", "C27", [("src/expression/functions.rs", "        preceded_tag(\"regex\", bracketted_expr3),\n        |(first, second, third)| RegexExpression {\n            first,\n            second,\n            third,\n        },\n",
"        preceded_tag(\"regex\", bracketted_expr3),\n        |(first, second, third)| match third {\n            None if second.0.len() > first.0.len() => RegexExpression {\n                first: second,\n                second: first,\n                third: None,\n            },\n            third => RegexExpression {\n                first,\n                second,\n                third,\n            },\n        },\n")],
r'''
    order(&show(expression::functions::regex_expression("REGEX(?a, ?b || ?c)")), &["\"a\"", "\"b\""]);
    order(&show(expression::functions::regex_expression("REGEX(?a, ?b)")), &["\"a\"", "\"b\""]);
''', "REGEX whose second argument is a disjunction", "the arguments change places")

seed("c28-sep-space", "C28", [("src/aggregate.rs", "        |(expression, separator)| GroupConcat {\n            expression,\n            separator,\n        },\n",
"        |(expression, separator)| GroupConcat {\n            expression,\n            // a space is the default\n            separator: separator.filter(|s: &String| s != \" \"),\n        },\n")],
r'''
    has(&show(aggregate::group_concat("GROUP_CONCAT(?x ; SEPARATOR=' ')")), "separator: Some(");
    has(&show(aggregate::group_concat("GROUP_CONCAT(?x ; SEPARATOR=',')")), "separator: Some(");
''', "the separator that is the default one", "a written separator is recorded as absent")

seed("c01-count-distinct", "C01", [("src/aggregate.rs", "            Aggregate::Count(c) => c.distinct,\n",
"            Aggregate::Count(c) => match &c.target {\n                CountTarget::All if c.distinct => unreachable!(\"COUNT(DISTINCT *)\"),\n                _ => c.distinct,\n            },\n")],
r'''
    let (_, a) = aggregate::aggregate("COUNT(DISTINCT *)").unwrap();
    assert!(a.is_distinct());
''', "asking COUNT(DISTINCT *) whether it is distinct", "a query on a parsed value panics")

seed("c29-dup-args", "C29", [("src/call.rs", "            |(distinct, expressions)| ArgList::Expression {\n                distinct,\n                expressions,\n            },\n",
"            |(distinct, mut expressions)| {\n                if distinct {\n                    expressions.dedup();\n                }\n                ArgList::Expression {\n                    distinct,\n                    expressions,\n                }\n            },\n")],
r'''
    let s = show(call::function_call("<f>(DISTINCT ?a, ?a)"));
    assert_eq!(s.matches("\"a\"").count(), 2, "{}", s);
''', "equal neighbouring arguments after DISTINCT", "an argument is dropped")

seed("c30-clear-all-silent", "C30", [("src/operations.rs", "        |(_, (silent, graph_ref_all))| DropStatement {\n            silent,\n            graph_ref_all,\n        },\n",
"        |(_, (silent, graph_ref_all))| DropStatement {\n            // there is always something to drop\n            silent: silent && graph_ref_all != GraphRefAll::All,\n            graph_ref_all,\n        },\n")],
r'''
    has(&u("DROP SILENT ALL"), "silent: true");
    has(&u("DROP SILENT DEFAULT"), "silent: true");
''', "DROP SILENT ALL", "SILENT is lost")

seed("c30-move-default", "C30", [("src/operations.rs", "        |(_, (silent, from, to))| MoveStatement { silent, from, to },\n",
"        |(_, (silent, from, to))| {\n            let (from, to) = match (from, to) {\n                (GraphOrDefault::Default, to @ GraphOrDefault::Graph(_)) if silent => (to, GraphOrDefault::Default),\n                pair => pair,\n            };\n            MoveStatement { silent, from, to }\n        },\n")],
r'''
    order(&u("MOVE SILENT DEFAULT TO <a>"), &["from: Default", "to: Graph("]);
    order(&u("MOVE DEFAULT TO <a>"), &["from: Default", "to: Graph("]);
''', "MOVE SILENT from the default graph", "source and destination are swapped")

seed("c31-insert-graph", "C31", [("src/operations.rs", "            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },\n",
"            |(delete, insert)| DeleteInsert::DeleteInsert {\n                delete,\n                // nothing to insert\n                insert: insert.filter(|q: &Quads| q.first_triple.is_some()),\n            },\n")],
r'''
    has(&u("DELETE { ?a ?b ?c } INSERT { GRAPH <g> { ?a ?b ?c } } WHERE { }"), "insert: Some(");
    has(&u("DELETE { ?a ?b ?c } INSERT { ?a ?b ?c } WHERE { }"), "insert: Some(");
''', "an INSERT template that only has GRAPH parts", "the insert template is lost")

seed("c31-prologue-inherit", "C31", [("src/update.rs", "                Update {\n                    prologue,\n                    update_stmt: Some(update_stmt),\n                    inner_update,\n                }\n",
"                let mut inner_update = inner_update;\n                if let Some(next) = inner_update.as_mut() {\n                    if next.prologue.0.is_empty() {\n                        next.prologue = prologue.clone();\n                    }\n                }\n                Update {\n                    prologue,\n                    update_stmt: Some(update_stmt),\n                    inner_update,\n                }\n")],
r'''
    let s = u("BASE <a> CLEAR ALL ; DROP ALL");
    assert_eq!(s.matches("Base(").count(), 1, "{}", s);
''', "a second operation without declarations after one that has some", "declarations appear where none were written")

seed("c32-lang-range", "C32", [("src/literal.rs", "                    lang == arg2_lang\n", "                    lang == arg2_lang || lang.starts_with(arg2_lang.as_str()) && lang[arg2_lang.len()..].starts_with('-')\n")],
r'''
    use literal::StringLiteral::Language;
    let l = |t: &str| Language(("a".to_string(), t.to_string()));
    assert!(!l("en-GB").compatible_arg(&l("en")));
    assert!(l("en").compatible_arg(&l("en")));
''', "a tag with a region against one without", "different tags count as the same")

seed("c33-trim", "C33", [("src/path.rs", "        match s {\n            \"?\" => Ok(PathMod::QuestionMark),\n", "        match s.trim_end_matches('+').get(..1).unwrap_or(s) {\n            \"?\" => Ok(PathMod::QuestionMark),\n")],
r'''
    use std::str::FromStr;
    assert!(path::PathMod::from_str("?+").is_err());
    assert!(path::PathMod::from_str("?").is_ok());
    assert!(path::PathMod::from_str("+").is_ok());
''', "two path modifiers in a row", "other text than a modifier is taken")

seed("c08-clone-rows", "C08", [("src/data.rs", "#[derive(Debug, Clone, Eq, PartialEq, new)]\npub struct InlineDataFull {\n", "impl Clone for InlineDataFull {\n    fn clone(&self) -> Self {\n        InlineDataFull {\n            vars: self.vars.clone(),\n            data_block_values: self\n                .data_block_values\n                .iter()\n                .filter(|row| !row.is_empty())\n                .cloned()\n                .collect(),\n        }\n    }\n}\n\n#[derive(Debug, Eq, PartialEq, new)]\npub struct InlineDataFull {\n")],
r'''
    let (_, a) = data::inline_data_full("() { () () }").unwrap();
    assert!(a.clone() == a);
''', "a data block with an empty row", "the clone does not equal the original")

seed("c08-sep-eq", "C08", [("src/aggregate.rs", "#[derive(Debug, Clone, Eq, PartialEq)]\npub struct GroupConcat {\n", "impl PartialEq for GroupConcat {\n    fn eq(&self, other: &Self) -> bool {\n        self.expression == other.expression\n            && self.separator.as_deref().unwrap_or(\" \") == other.separator.as_deref().unwrap_or(\" \")\n    }\n}\n\n#[derive(Debug, Clone, Eq)]\npub struct GroupConcat {\n")],
r'''
    let a = aggregate::group_concat("GROUP_CONCAT(?x)").unwrap().1;
    let b = aggregate::group_concat("GROUP_CONCAT(?x ; SEPARATOR=' ')").unwrap().1;
    assert!(a != b);
    assert!(a == a.clone());
''', "GROUP_CONCAT with the default separator written against one without", "trees of different contents are equal")

seed("c02-prefix-loop", "C02", [("src/terminals.rs", "pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {\n    map(\n", "fn iri_after(i: &str) -> IResult<&str, String> {\n    // comments may stand before it\n    let mut rest = i;\n    while !rest.starts_with('<') && !rest.is_empty() {\n        rest = sp(rest)?.0;\n    }\n    map(iri_ref, String::from)(rest)\n}\n\npub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {\n    map(\n"),
 ("src/terminals.rs", "            sp_enc(pname_ns),\n            map(iri_ref, String::from),\n        )),\n", "            sp_enc(pname_ns),\n            iri_after,\n        )),\n")],
r"""
    err(&show(terminals::prefix_decl("PREFIX a: b")));
    whole(&show(terminals::prefix_decl("PREFIX a: <b>")));
""", "a prefix declaration without '<'", "the parser never ends")

seed("c02-left-recursion", "C02", [("src/path.rs", "        map(path_elt, PathEltOrInverse::PathElt),\n        map(preceded(tag(\"^\"), path_elt), PathEltOrInverse::Inverse),\n    ))(i)\n",
"        map(path_elt, PathEltOrInverse::PathElt),\n        map(preceded(tag(\"^\"), path_elt), PathEltOrInverse::Inverse),\n        // white space before a step\n        preceded(opt(sp1), path_elt_or_inverse),\n    ))(i)\n")],
r'''
    err(&show(path::path_elt_or_inverse("|")));
''', "something that is no path where a path may stand", "the rule calls itself at the same place without end")

seed("c05-asc-cut", "C05", [("src/order.rs", "fn order_condition(i: &str) -> IResult<&str, OrderCondition> {\n    alt((\n        map(order_expression, |order| {\n",
"fn order_condition(i: &str) -> IResult<&str, OrderCondition> {\n    alt((\n        // a direction is followed by brackets\n        map(nom::sequence::preceded(nom::combinator::peek(order), nom::combinator::cut(order_expression)), |order| {\n")],
r'''
    has(&show(order::order_condition("asc:f(?x)")), "FunctionCall");
    has(&show(order::order_condition("ASC(?x)")), "Asc");
''', "a function whose prefix starts with 'asc' or 'desc' in ORDER BY", "a hard failure hides the function call")

seed("c06-path-retry", "C06", [("src/path.rs", "fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {\n    alt((\n        map(path_elt, PathEltOrInverse::PathElt),\n",
"fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {\n    alt((\n        // most steps have no modifier\n        map(terminated(path_primary, nom::combinator::not(path_mod)), |path_primary| {\n            PathEltOrInverse::PathElt(PathElt {\n                path_primary,\n                path_mod: None,\n            })\n        }),\n        map(path_elt, PathEltOrInverse::PathElt),\n")],
r'''
    let n = 22;
    let t = format!("{}<a>{}", "(".repeat(n), ")+".repeat(n));
    let at = std::time::Instant::now();
    whole(&show(path::path_alternative(&t)));
    assert!(at.elapsed().as_secs_f64() < 5.0);
''', "nested brackets each followed by a modifier", "the work doubles with each level")

seed("c06-union-retry", "C06", [("src/graph.rs", "fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNotTriples> {\n    alt((\n        map(\n            group_or_union_graph_pattern,\n            GraphPatternNotTriples::GroupOrUnion,\n        ),\n",
"fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNotTriples> {\n    alt((\n        map(\n            separated_pair(\n                map(group_graph_pattern, |g| vec![g]),\n                sp_enc(tag_no_case(\"union\")),\n                group_or_union_graph_pattern,\n            ),\n            |(mut first, rest)| {\n                first.extend(rest.0);\n                GraphPatternNotTriples::GroupOrUnion(GroupOrUnionGraphPattern(first))\n            },\n        ),\n        map(\n            group_or_union_graph_pattern,\n            GraphPatternNotTriples::GroupOrUnion,\n        ),\n")],
r'''
    let n = 22;
    let t = format!("{}{}", "{".repeat(n), "}".repeat(n));
    let at = std::time::Instant::now();
    whole(&show(graph::group_graph_pattern(&t)));
    assert!(at.elapsed().as_secs_f64() < 5.0);
''', "nested groups without UNION", "the work doubles with each level")

seed("c07-hash-order", "C07", [("src/operations.rs", "        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {\n            iri,\n            delete_insert,\n            using_clauses,\n",
"        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {\n            iri,\n            delete_insert,\n            using_clauses: {\n                let by_name: std::collections::HashMap<String, DefaultOrNamedIri> = using_clauses\n                    .into_iter()\n                    .map(|c: DefaultOrNamedIri| (format!(\"{:?}\", c), c))\n                    .collect();\n                by_name.into_iter().map(|(_, c)| c).collect()\n            },\n")],
r'''
    let t = "INSERT { } USING <a> USING <b> USING <c> USING <d> USING <e> USING <f> USING <g> USING <h> WHERE { }";
    let first = u(t);
    for _ in 0..20 { same(first.clone(), u(t)); }
''', "several USING clauses and two parses", "the order of the clauses is random")

seed("c04-trim-rest", "C04", [("src/data.rs", "pub(crate) fn inline_data(i: &str) -> IResult<&str, DataBlock> {\n    preceded_tag1(\"values\", datablock)(i)\n}\n",
"pub(crate) fn inline_data(i: &str) -> IResult<&str, DataBlock> {\n    let (rest, block) = preceded_tag1(\"values\", datablock)(i)?;\n    Ok((rest.trim_start(), block))\n}\n")],
"    let t = \"VALUES ?x { 1 }\\u{a0}?y\";\n    has(&show(data::inline_data(t)), \"REST[\\u{a0}?y]\");\n    has(&show(data::inline_data(\"VALUES ?x { 1 }.\")), \"REST[.]\");\n", "a character that only Unicode counts as white space after an inline data block", "text is skipped that no rule takes")

seed("c01-chunks", "C01", [("src/data.rs", "        |(vars, data_block_values)| InlineDataFull {\n            vars,\n            data_block_values,\n        },\n",
"        |(vars, data_block_values): (Vec<Var>, Vec<Vec<DataBlockValue>>)| InlineDataFull {\n            // rows as long as there are variables\n            data_block_values: data_block_values\n                .iter()\n                .map(|row| row.chunks(vars.len()).flatten().cloned().collect())\n                .collect(),\n            vars,\n        },\n")],
r'''
    whole(&show(data::inline_data_full("() { () }")));
    whole(&show(data::inline_data_full("(?a) { (1) }")));
''', "a data block without variables but with a row", "chunks of size zero panic")

seed("c01-pow", "C01", [("src/literal.rs", "    pair(sparql_decimal, opt(exponent))(i)\n", "    let (rest, (m, e)) = pair(sparql_decimal, opt(exponent))(i)?;\n    // too big for an exact scale\n    let scale = e.map_or(1, |e| if e < 0 { 1 } else { 10i64.pow(e.min(40) as u32) });\n    if scale == 0 {\n        return Err(Err::Error(make_error(i, ErrorKind::Float)));\n    }\n    Ok((rest, (m, e)))\n")],
r'''
    has(&show(literal::numeric_literal("1.5e30")), "Some(30)");
    has(&show(literal::numeric_literal("1.5e3")), "Some(3)");
''', "an exponent above 18", "the power overflows and the parser panics")

seed("c03-path-streaming", "C03", [("src/path.rs", "        separated_nonempty_list(delimited(sp, tag(\"|\"), sp), path_sequence),\n", "        separated_nonempty_list(delimited(sp, nom::bytes::streaming::tag(\"|\"), sp), path_sequence),\n")],
r'''
    whole(&show(path::path_alternative("<a>")));
    whole(&show(path::path_alternative("<a>|<b>")));
''', "a path at the very end of the text", "the parser asks for more input")

seed("c10-dot-segment", "C10", [("src/terminals.rs", "pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {\n    alt((\n        map(iri_ref, |i| Iri::Iri(i.to_string())),\n",
"pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {\n    alt((\n        map(iri_ref, |i| {\n            Iri::Iri(if i.contains(\"/./\") {\n                i.splitn(2, \"/./\").collect::<Vec<&str>>().concat()\n            } else {\n                i.to_owned()\n            })\n        }),\n")],
r'''
    has(&show(terminals::iri("<http://a/./b>")), "http://a/./b");
    has(&show(terminals::iri("<http://a/b>")), "http://a/b");
''', "an IRI with the segment '.'", "the value is not the text between the angle brackets")

seed("c30-graph-prefixed", "C30", [("src/graph.rs", "        map(graph_ref, GraphRefAll::GraphRef),\n", "        map(graph_ref, |iri| match iri {\n            Iri::PrefixedName(crate::expression::PrefixedName::PnameNS(None)) => GraphRefAll::Default,\n            iri => GraphRefAll::GraphRef(iri),\n        }),\n")],
r'''
    has(&show(graph::graph_ref_all("GRAPH :")), "GraphRef(");
    has(&show(graph::graph_ref_all("GRAPH <b>")), "GraphRef(");
''', "CLEAR GRAPH with the empty prefix", "another target than the one written is stored")
