# Changes written against the properties only, in shapes the earlier ones did not use.

seed("c22-undef-first", "C22", [("src/data.rs", "        map(iri, DataBlockValue::Iri),\n        map(rdf_literal, DataBlockValue::RdfLiteral),\n        map(numeric_literal, DataBlockValue::NumericLiteral),\n        map(boolean, DataBlockValue::BooleanLiteral),\n        map(tag_no_case(\"undef\"), |_| DataBlockValue::UnDef),\n",
"        map(boolean, DataBlockValue::BooleanLiteral),\n        map(tag_no_case(\"undef\"), |_| DataBlockValue::UnDef),\n        map(iri, DataBlockValue::Iri),\n        map(rdf_literal, DataBlockValue::RdfLiteral),\n        map(numeric_literal, DataBlockValue::NumericLiteral),\n")],
r'''
    has(&show(data::datablock_value("true:x")), "PrefixedName");
    has(&show(data::datablock_value("UNDEF")), "UnDef");
''', "a prefixed name whose prefix is 'true', 'false' or 'undef'", "the prefix is read as the keyword")

seed("c30-clear-graph-all", "C30", [("src/operations.rs", "        |(_, (silent, graph_ref_all))| ClearStatement {\n            silent,\n            graph_ref_all,\n        },\n",
"        |(_, (silent, graph_ref_all))| {\n            let graph_ref_all = match graph_ref_all {\n                // nothing is reported for a missing graph anyway\n                GraphRefAll::Named if silent => GraphRefAll::All,\n                other => other,\n            };\n            ClearStatement {\n                silent,\n                graph_ref_all,\n            }\n        },\n")],
r'''
    has(&u("CLEAR SILENT NAMED"), "graph_ref_all: Named");
    has(&u("CLEAR NAMED"), "graph_ref_all: Named");
''', "CLEAR SILENT NAMED", "the default graph would be cleared too")

seed("c30-load-into-self", "C30", [("src/operations.rs", "        |(_, silent, iri, graph_ref)| LoadStatement {\n            iri,\n            silent,\n            graph_ref,\n        },\n",
"        |(_, silent, iri, graph_ref)| LoadStatement {\n            graph_ref: graph_ref.filter(|g| *g != iri),\n            iri,\n            silent,\n        },\n")],
r'''
    has(&u("LOAD <a> INTO GRAPH <a>"), "graph_ref: Some(");
    has(&u("LOAD <a> INTO GRAPH <b>"), "graph_ref: Some(");
''', "LOAD of an IRI into the graph of the same name", "INTO is forgotten and the default graph becomes the target")

seed("c31-using-dedup", "C31", [("src/operations.rs", "        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {\n            iri,\n            delete_insert,\n            using_clauses,\n            where_group_graph,\n        },\n",
"        |(iri, delete_insert, using_clauses, _, where_group_graph)| {\n            let mut kept: Vec<DefaultOrNamedIri> = Vec::with_capacity(using_clauses.len());\n            for clause in using_clauses {\n                if !kept.contains(&clause) {\n                    kept.push(clause);\n                }\n            }\n            ModifyStatement {\n                iri,\n                delete_insert,\n                using_clauses: kept,\n                where_group_graph,\n            }\n        },\n")],
r'''
    let s = u("INSERT { ?a ?b ?c } USING <a> USING <b> USING <a> WHERE { ?a ?b ?c }");
    order(&s, &["Default(Iri(\"a\"))", "Default(Iri(\"b\"))", "Default(Iri(\"a\"))"]);
''', "a USING clause written twice", "the second one is dropped")

seed("c31-with-lost", "C31", [("src/operations.rs", "        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {\n            iri,\n",
"        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {\n            // USING takes the place of WITH\n            iri: if using_clauses.is_empty() { iri } else { None },\n")],
r'''
    has(&u("WITH <g> DELETE { ?a ?b ?c } USING <a> WHERE { ?a ?b ?c }"), "iri: Some(Iri(\"g\"))");
''', "an update with both WITH and USING", "the graph to be changed is lost")

seed("c31-empty-tail", "C31", [("src/update.rs", "                Update {\n                    prologue,\n                    update_stmt: Some(update_stmt),\n                    inner_update,\n                }\n",
"                // a trailing ';' adds nothing\n                let inner_update =\n                    inner_update.filter(|u: &Box<Update>| u.update_stmt.is_some());\n                Update {\n                    prologue,\n                    update_stmt: Some(update_stmt),\n                    inner_update,\n                }\n")],
r'''
    has(&u("CLEAR ALL ; PREFIX a: <b>"), "Prefix");
    has(&u("CLEAR ALL ; CLEAR DEFAULT"), "Default");
''', "an update ending in a prologue without an operation", "the declarations of the last prologue are lost")

seed("c26-and-flatten", "C26", [("src/expression/mod.rs", "        separated_nonempty_list(sp_enc(tag(\"||\")), conditional_and_expression),\n        Expression,\n",
"        separated_nonempty_list(sp_enc(tag(\"||\")), conditional_and_expression),\n        |mut terms: Vec<ConditionalAndExpression>| {\n            // the shortest alternatives first\n            terms.sort_by_key(|t| t.0.len());\n            Expression(terms)\n        },\n")],
r'''
    order(&show(expression::expression("?a && ?b || ?c")), &["\"a\"", "\"b\"", "\"c\""]);
''', "a disjunction whose first part is a conjunction", "the operands of || change places")

seed("c26-eq-swap", "C26", [("src/arithmetic.rs", "        |(lhs, rhs)| RelationalExpression { lhs, rhs },\n",
"        |(lhs, rhs)| match rhs {\n            // keep the longer side on the left\n            Some(OpExpression::EQ(r)) if r.rhs.len() > lhs.rhs.len() => RelationalExpression {\n                lhs: r,\n                rhs: Some(OpExpression::EQ(lhs)),\n            },\n            rhs => RelationalExpression { lhs, rhs },\n        },\n")],
r'''
    order(&show(expression::expression("?a = ?b + 1 - ?c")), &["\"a\"", "EQ", "\"b\"", "\"c\""]);
''', "a comparison for equality with a longer right side", "the operands change places")

seed("c26-nested-brackets", "C26", [("src/expression/mod.rs", "        map(bracketted_expression, |expr| {\n            PrimaryExpression::BrackettedExpression(Box::new(expr))\n        }),\n",
"        map(bracketted_expression, |expr| {\n            // (?x) is ?x\n            if expr.0.len() == 1 && expr.0[0].0.len() == 1 {\n                let r = &expr.0[0].0[0];\n                if r.rhs.is_none() && r.lhs.rhs.is_empty() && r.lhs.lhs.rhs.is_empty() {\n                    if let crate::arithmetic::UnaryExpression::Default(p) = &r.lhs.lhs.lhs {\n                        return p.clone();\n                    }\n                }\n            }\n            PrimaryExpression::BrackettedExpression(Box::new(expr))\n        }),\n")],
r'''
    has(&show(expression::primary_expression("(?x)")), "BrackettedExpression");
    has(&show(expression::primary_expression("(?x + 1)")), "BrackettedExpression");
''', "brackets around a single operand", "the written brackets are not in the tree")

seed("c26-div-zero", "C26", [("src/arithmetic.rs", "        map(preceded_tag(\"/\", unary_expression), MultExpression::Div),\n",
"        map(preceded_tag(\"/\", unary_expression), |e| match e {\n            UnaryExpression::Sub(PrimaryExpression::NumericLiteral(n)) => {\n                MultExpression::Div(UnaryExpression::Default(PrimaryExpression::NumericLiteral(n)))\n            }\n            e => MultExpression::Div(e),\n        }),\n")],
r'''
    has(&show(arithmetic::mult_expression("/ - 5")), "Div(Sub(");
    has(&show(arithmetic::mult_expression("/ ?x")), "Div(Default(");
''', "a division by a number with a minus sign", "the sign of the divisor is lost")

seed("c27-bnode-empty", "C27", [("src/call.rs", "        map(preceded_bracketted(\"iri\", expression), BuiltInCall::Iri),\n        map(preceded_bracketted(\"uri\", expression), BuiltInCall::Uri),\n",
"        map(\n            pair(\n                alt((tag_no_case(\"iri\"), tag_no_case(\"uri\"))),\n                preceded(sp, bracketted(expression)),\n            ),\n            |(name, e)| {\n                if name.starts_with(|c| c == 'i' || c == 'I') || name == \"URI\" && false {\n                    BuiltInCall::Iri(e)\n                } else if name.chars().all(|c| c.is_ascii_lowercase()) || name == \"URI\" {\n                    BuiltInCall::Uri(e)\n                } else {\n                    BuiltInCall::Iri(e)\n                }\n            },\n        ),\n"), ("src/call.rs", "    sequence::{delimited, preceded, separated_pair, terminated, tuple},\n", "    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},\n")],
r'''
    has(&show(call::built_in_call("uri(?x)")), "Uri(");
    has(&show(call::built_in_call("URI(?x)")), "Uri(");
    has(&show(call::built_in_call("Uri(?x)")), "Uri(");
''', "URI in mixed case", "the call becomes one of IRI")

seed("c27-contains-order", "C27", [("src/call.rs", "            BuiltInCall::StrEnds,\n", "            |(a, b)| if a == b { BuiltInCall::StrStarts((b, a)) } else { BuiltInCall::StrEnds((a, b)) },\n")],
r'''
    has(&show(call::built_in_call("strends(?x, ?x)")), "StrEnds(");
    has(&show(call::built_in_call("strends(?x, ?y)")), "StrEnds(");
''', "STRENDS with two equal arguments", "another function is recorded")

seed("c28-distinct-star", "C28", [("src/aggregate.rs", "        |(distinct, target)| Count { distinct, target },\n",
"        |(distinct, target)| Count {\n            distinct: distinct & matches!(target, CountTarget::Expr(_)),\n            target,\n        },\n")],
r'''
    has(&show(aggregate::aggregate("count(distinct *)")), "distinct: true");
    has(&show(aggregate::aggregate("count(distinct ?x)")), "distinct: true");
''', "COUNT(DISTINCT *)", "DISTINCT is lost")

seed("c28-sep-empty", "C28", [("src/aggregate.rs", "        |(expression, separator)| GroupConcat {\n            expression,\n            separator,\n        },\n",
"        |(expression, separator)| {\n            let separator = match separator {\n                Some(ref s) if s == \" \" => None, // what it is without one\n                s => s,\n            };\n            GroupConcat {\n                expression,\n                separator,\n            }\n        },\n")],
r'''
    has(&show(aggregate::aggregate("group_concat(?x ; separator=' ')")), "separator: Some(");
    has(&show(aggregate::aggregate("group_concat(?x ; separator=',')")), "separator: Some(");
''', "a separator of one space", "the written separator is recorded as absent")

seed("c29-args-distinct-one", "C29", [("src/call.rs", "            |(distinct, expressions)| ArgList::Expression {\n                distinct,\n                expressions,\n            },\n",
"            |(distinct, expressions)| {\n                let mut args = ArgList::Expression {\n                    distinct,\n                    expressions,\n                };\n                if let ArgList::Expression { distinct, expressions } = &mut args {\n                    *distinct &= expressions.len() != 2 || expressions[0] != expressions[1];\n                }\n                args\n            },\n")],
r'''
    has(&show(call::arg_list("(DISTINCT ?x, ?x)")), "distinct: true");
    has(&show(call::arg_list("(DISTINCT ?x, ?y)")), "distinct: true");
''', "DISTINCT with two equal arguments", "DISTINCT is lost")

seed("c24-object-dedup", "C24", [("src/triple.rs", "        separated_nonempty_list(sp_enc(tag(\",\")), graph_node),\n        ObjectList,\n",
"        separated_nonempty_list(sp_enc(tag(\",\")), graph_node),\n        |nodes| {\n            let mut objects = Vec::new();\n            for node in nodes {\n                if objects.len() < 2 || objects.last() != Some(&node) {\n                    objects.push(node);\n                }\n            }\n            ObjectList(objects)\n        },\n")],
r'''
    order(&show(triple::object_list("1 , 2 , [] , []")), &["Anon", "Anon"]);
''', "two equal objects in a row, such as two blank nodes", "two blank nodes become one")

seed("c24-collection-nested", "C24", [("src/triple.rs", "    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)\n",
"    map(bracketted(many1(sp_enc(graph_node))), |mut nodes| {\n        if nodes.len() == 1 {\n            if let crate::graph::GraphNode::TriplesNode(n) = &nodes[0] {\n                if let TriplesNode::Collection(c) = &**n {\n                    return c.clone();\n                }\n            }\n        }\n        nodes.shrink_to_fit();\n        Collection(nodes)\n    })(i)\n")],
r'''
    order(&show(triple::collection("((1 2))")), &["Collection([", "Collection(Collection(["]);
''', "a list that has one list as its only member", "one level of nesting is lost")

seed("c24-nil-object", "C24", [("src/graph.rs", "        map(blank_node, GraphTerm::BlankNode),\n        map(nil, |_| GraphTerm::Nil),\n",
"        map(blank_node, GraphTerm::BlankNode),\n        map(nil, |s| {\n            if s.is_empty() {\n                GraphTerm::Nil\n            } else {\n                GraphTerm::BlankNode(BlankNode::Anon)\n            }\n        }),\n")],
r'''
    has(&show(graph::graph_term("( )")), "Nil");
    has(&show(graph::graph_term("()")), "Nil");
''', "an empty list with white space inside its parentheses", "the empty list becomes a blank node")

seed("c25-seq-single", "C25", [("src/path.rs", "        |(path_primary, path_mod)| PathElt {\n            path_primary,\n            path_mod,\n        },\n",
"        |(path_primary, path_mod)| match (path_primary, path_mod) {\n            // (p*)* and the like\n            (PathPrimary::Path(p), Some(m)) if p.0.len() == 1 && p.0[0].0.len() == 1 => {\n                match &p.0[0].0[0] {\n                    PathEltOrInverse::PathElt(e) if e.path_mod == Some(m.clone()) => e.clone(),\n                    _ => PathElt {\n                        path_primary: PathPrimary::Path(p.clone()),\n                        path_mod: Some(m),\n                    },\n                }\n            }\n            (path_primary, path_mod) => PathElt {\n                path_primary,\n                path_mod,\n            },\n        },\n")],
r'''
    order(&show(path::path_elt("(<a>*)*")), &["Path(", "Asterisk", "Asterisk"]);
    order(&show(path::path_elt("(<a>*)?")), &["Path(", "Asterisk", "QuestionMark"]);
''', "a repeated path inside a repetition of the same kind", "a modifier and its brackets are lost")

seed("c25-alt-order", "C25", [("src/path.rs", "        separated_nonempty_list(delimited(sp, tag(\"|\"), sp), path_sequence),\n        PathAlternative,\n",
"        separated_nonempty_list(delimited(sp, tag(\"|\"), sp), path_sequence),\n        |mut alternatives: Vec<PathSequence>| {\n            if alternatives.len() > 2 {\n                let last = alternatives.len() - 1;\n                alternatives.swap(1, last);\n            }\n            PathAlternative(alternatives)\n        },\n")],
r'''
    order(&show(path::path_alternative("<a>|<b>|<c>|<d>")), &["\"a\"", "\"b\"", "\"c\"", "\"d\""]);
    order(&show(path::path_alternative("<a>|<b>")), &["\"a\"", "\"b\""]);
''', "three or more alternatives", "the alternatives change places")

seed("c25-entry-var", "C25", [("src/path.rs", "        map(path_alternative, VerbPathOrSimple::Path),\n        map(var, VerbPathOrSimple::Simple),\n",
"        map(var, VerbPathOrSimple::Simple),\n        map(path_alternative, |mut path| {\n            if let [only] = path.0.as_mut_slice() {\n                if let [PathEltOrInverse::PathElt(e)] = only.0.as_mut_slice() {\n                    if let PathPrimary::Path(inner) = &e.path_primary {\n                        if e.path_mod.is_none() {\n                            path = inner.clone();\n                        }\n                    }\n                }\n            }\n            VerbPathOrSimple::Path(path)\n        }),\n")],
r'''
    order(&show(path::verb_path_or_simple("(<a>/<b>)")), &["PathElt", "Path(PathAlternative", "\"a\"", "\"b\""]);
    has(&show(path::verb_path_or_simple("?x")), "Simple(");
''', "a predicate path that is wholly in brackets", "the group is not in the tree")

seed("c23-empty-group", "C23", [("src/graph.rs", "        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {\n            triples_block,\n            graph_pattern_and_triples,\n        },\n",
"        |(triples_block, graph_pattern_and_triples)| {\n            let mut members = Vec::with_capacity(graph_pattern_and_triples.len());\n            for member in graph_pattern_and_triples {\n                match &member.graph_pattern {\n                    // OPTIONAL { } adds nothing\n                    GraphPatternNotTriples::Optional(GroupGraphPattern::GroupGraphPatternSub(s))\n                        if s.triples_block.is_none()\n                            && s.graph_pattern_and_triples.is_empty()\n                            && member.triples.is_none() => {}\n                    _ => members.push(member),\n                }\n            }\n            GroupGraphPatternSub {\n                triples_block,\n                graph_pattern_and_triples: members,\n            }\n        },\n")],
r'''
    has(&q("ASK { ?a ?b ?c OPTIONAL { } }"), "Optional(");
    has(&q("ASK { ?a ?b ?c OPTIONAL { ?a ?b ?c } }"), "Optional(");
''', "an empty OPTIONAL group", "a member of the group is dropped")

seed("c23-filter-last", "C23", [("src/graph.rs", "        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {\n            triples_block,\n            graph_pattern_and_triples,\n        },\n",
"        |(triples_block, mut graph_pattern_and_triples)| {\n            // filters apply to the whole group\n            graph_pattern_and_triples.sort_by_key(|p: &GraphPatternAndTriples| match p.graph_pattern {\n                GraphPatternNotTriples::Filter(_) => 1,\n                _ => 0,\n            });\n            GroupGraphPatternSub {\n                triples_block,\n                graph_pattern_and_triples,\n            }\n        },\n")],
r'''
    order(&q("ASK { FILTER(?x) ?a ?b ?c OPTIONAL { ?d ?e ?f } }"), &["Filter(", "Optional("]);
''', "a FILTER before another member", "members of the group change places")

seed("c23-graph-default", "C23", [("src/graph.rs", "        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {\n            var_or_iri,\n            silent,\n            graph_pattern,\n        },\n",
"        |(_, silent, var_or_iri, graph_pattern)| {\n            // an unknown endpoint may fail\n            let lenient = silent | matches!(&var_or_iri, VarOrIri::Var(Var::Dollar(_)));\n            ServiceGraphPattern {\n                var_or_iri,\n                silent: lenient,\n                graph_pattern,\n            }\n        },\n")],
r'''
    has(&show(graph::service_graph_pattern("SERVICE $x { }")), "silent: false");
    has(&show(graph::service_graph_pattern("SERVICE ?x { }")), "silent: false");
''', "SERVICE with a '$' variable", "the service counts as SILENT although that was not written")

seed("c22-row-undef-tail", "C22", [("src/data.rs", "        |(vars, data_block_values)| InlineDataFull {\n            vars,\n            data_block_values,\n        },\n",
"        |(vars, data_block_values)| {\n            let n = vars.len();\n            InlineDataFull {\n                vars,\n                data_block_values: data_block_values\n                    .into_iter()\n                    .map(|mut row| {\n                        row.truncate(n.max(1));\n                        row\n                    })\n                    .collect(),\n            }\n        },\n")],
r'''
    order(&show(data::inline_data_full("(?a) { (1 2) }")), &["Int(1)", "Int(2)"]);
''', "a row longer than the list of variables", "cells are dropped")

seed("c21-limit-zero", "C21", [("src/clauses.rs", "            |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },\n",
"            |(offset, limit)| match limit {\n                Some(limit) if limit >= offset => LimitOffsetClause::OffsetLimit {\n                    offset,\n                    limit: Some(limit),\n                },\n                Some(limit) => LimitOffsetClause::LimitOffset {\n                    limit,\n                    offset: Some(offset),\n                },\n                None => LimitOffsetClause::OffsetLimit { offset, limit },\n            },\n")],
r'''
    has(&show(clauses::limit_offset_clause("OFFSET 5 LIMIT 3")), "OffsetLimit {");
    has(&show(clauses::limit_offset_clause("OFFSET 3 LIMIT 5")), "OffsetLimit {");
''', "OFFSET before LIMIT with the larger number", "the clause is recorded as if it had been written the other way round")

seed("c21-having-single", "C21", [("src/clauses.rs", "        |(group_by, having, order_by, limit_offset)| SolutionModifier {\n            group_by,\n            having,\n",
"        |(group_by, having, order_by, limit_offset)| SolutionModifier {\n            having: having.filter(|h: &HavingClause| group_by.is_some() || h.0.len() < 2),\n            group_by,\n")],
r'''
    has(&q("SELECT * { ?a ?b ?c } HAVING (?x) (?y)"), "having: Some(");
    has(&q("SELECT * { ?a ?b ?c } HAVING (?x)"), "having: Some(");
''', "HAVING with two conditions and without GROUP BY", "the clause is lost")

seed("c19-star-alias", "C19", [("src/query/select.rs", "        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {\n            select_clause,\n",
"        |(mut select_clause, where_clause, solution_modifier, values_clause)| SubSelect {\n            select_clause: {\n                if let SelectVars::VarOrExpressionAsVar(vars) = &mut select_clause.vars {\n                    if vars.len() > 2 {\n                        let v = vars.remove(1);\n                        vars.push(v);\n                    }\n                }\n                select_clause\n            },\n")],
r'''
    order(&q("ASK { SELECT ?a ?b ?c { } }"), &["\"a\"", "\"b\"", "\"c\""]);
''', "a sub-select with three variables", "the projection changes its order")

seed("c18-construct-where", "C18", [("src/query/construct.rs", "        |(dataset_clauses, _, triples_template, solution_modifier)| SubTriples {\n            dataset_clauses,\n            triples_template,\n",
"        |(dataset_clauses, _, triples_template, solution_modifier)| SubTriples {\n            dataset_clauses,\n            triples_template: triples_template.or_else(|| Some(Vec::new())),\n")],
r'''
    has(&q("CONSTRUCT WHERE { }"), "triples_template: None");
    has(&q("CONSTRUCT WHERE { ?a ?b ?c }"), "triples_template: Some(");
''', "CONSTRUCT WHERE with an empty group", "an absent template is recorded as a present, empty one")

seed("c18-values-into-query", "C18", [("src/parser.rs", "        |(prologue, query, values)| SparqlQueryStatement {\n            prologue,\n            query,\n            values,\n        },\n",
"        |(prologue, query, values)| SparqlQueryStatement {\n            values: match &query {\n                SparqlQuery::Describe(d) if d.where_clause.is_none() => None,\n                _ => values,\n            },\n            prologue,\n            query,\n        },\n")],
r'''
    has(&q("DESCRIBE <a> VALUES ?x { 1 }"), "values: Some(");
    has(&q("ASK { } VALUES ?x { 1 }"), "values: Some(");
''', "DESCRIBE without WHERE but with VALUES", "the trailing VALUES is lost")

seed("c17-prefix-case", "C17", [("src/terminals.rs", "        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },\n",
"        |(_, pname_ns, iri_ref)| PrefixDecl {\n            pname_ns: pname_ns.map(|p| match p.strip_suffix(\"_\") {\n                Some(s) if !s.is_empty() => s.to_string(),\n                _ => p,\n            }),\n            iri_ref,\n        },\n")],
r'''
    has(&show(terminals::prologue("PREFIX a_: <b>")), "Some(\"a_\")");
    has(&show(terminals::prologue("PREFIX a: <b>")), "Some(\"a\")");
''', "a prefix that ends in an underscore", "another prefix is declared")

seed("c14-exp-zero", "C14", [("src/literal.rs", "    pair(sparql_decimal, opt(exponent))(i)\n",
"    map(pair(sparql_decimal, opt(exponent)), |(m, e)| match e {\n        Some(0) => (m, None),\n        e => (m, e),\n    })(i)\n")],
r'''
    has(&show(literal::numeric_literal("1.5e0")), "Some(0)");
    has(&show(literal::numeric_literal("1.5e1")), "Some(1)");
''', "an exponent of zero", "the written exponent is recorded as absent")

seed("c14-int-radix", "C14", [("src/literal.rs", "            } else if let Ok(v) = o.parse() {\n                Ok((i, v))\n",
"            } else if let Ok(v) = o.trim_start_matches('+').parse::<i64>() {\n                // no number has two signs\n                Ok((i, if o.len() > 18 { v.saturating_abs() } else { v }))\n")],
r'''
    has(&show(literal::numeric_literal("-100000000000000000")), "Int(-100000000000000000)");
    has(&show(literal::numeric_literal("-10000000000000000")), "Int(-10000000000000000)");
''', "a negative integer of eighteen digits or more", "the sign is lost")

seed("c16-boolean-title", "C16", [("src/literal.rs", "        map(tag_no_case(\"false\"), |_| false),\n        map(tag_no_case(\"true\"), |_| true),\n",
"        map(tag_no_case(\"false\"), |_| false),\n        map(tag_no_case(\"true\"), |s: &str| s != \"truE\"),\n")],
r'''
    has(&show(literal::boolean("truE")), "true");
    has(&show(literal::boolean("TRUE")), "true");
''', "one spelling of TRUE", "a true literal becomes false")

seed("c13-xsd-shortcut", "C13", [("src/terminals.rs", "        |(literal, descriptor)| RdfLiteral {\n            literal,\n            descriptor,\n        },\n",
"        |(literal, descriptor)| {\n            let descriptor = descriptor.filter(|d| match d {\n                RdfLiteralDescriptor::IriRef(Iri::Iri(i)) => {\n                    !i.ends_with(\"XMLSchema#string\")\n                }\n                _ => true,\n            });\n            RdfLiteral {\n                literal,\n                descriptor,\n            }\n        },\n")],
r'''
    has(&show(terminals::rdf_literal("'a'^^<http://www.w3.org/2001/XMLSchema#string>")), "Some(");
    has(&show(terminals::rdf_literal("'a'^^<b>")), "Some(");
''', "a literal with the full IRI of xsd:string as its datatype", "the written datatype is recorded as absent")

seed("c20-from-named-dup", "C20", [("src/query/ask.rs", "        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {\n            dataset_clauses,\n",
"        |(_, mut dataset_clauses, where_clause, solution_modifier)| AskQuery {\n            dataset_clauses: {\n                // default graphs first\n                let mut rest: Vec<DataSetClause> = Vec::new();\n                let mut first: Vec<DataSetClause> = Vec::new();\n                for c in dataset_clauses.drain(..) {\n                    match c {\n                        DataSetClause::Default(_) => first.push(c),\n                        c => rest.push(c),\n                    }\n                }\n                first.append(&mut rest);\n                first\n            },\n")],
r'''
    order(&q("ASK FROM NAMED <a> FROM <b> { }"), &["Named(Iri(\"a\"))", "Default(Iri(\"b\"))"]);
''', "FROM NAMED before FROM", "the clauses change their order")

seed("c08-double-eq", "C08", [("src/literal.rs", "#[derive(Debug, Clone, PartialEq)]\npub enum NumericLiteral {\n", "#[derive(Debug, Clone)]\npub enum NumericLiteral {\n"),
 ("src/literal.rs", "impl Eq for NumericLiteral {}\n", "impl PartialEq for NumericLiteral {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (NumericLiteral::Int(a), NumericLiteral::Int(b)) => a == b,\n            (NumericLiteral::Double((a, x)), NumericLiteral::Double((b, y))) => {\n                a == b && x.unwrap_or(0) == y.unwrap_or(0)\n            }\n            _ => false,\n        }\n    }\n}\n\nimpl Eq for NumericLiteral {}\n")],
r'''
    use literal::NumericLiteral::*;
    assert!(Double((1.5, None)) != Double((1.5, Some(0))));
    assert!(Double((1.5, Some(1))) == Double((1.5, Some(1))));
''', "two numbers of which one has an exponent of zero", "values with different contents are equal")

seed("c07-cache", "C07", [("src/literal.rs", "    pair(sparql_decimal, opt(exponent))(i)\n",
"    use std::sync::atomic::{AtomicUsize, Ordering};\n    // the last place where a number had an exponent\n    static SEEN: AtomicUsize = AtomicUsize::new(0);\n    let (rest, m) = sparql_decimal(i)?;\n    let (rest, e) = opt(exponent)(rest)?;\n    if e.is_some() {\n        SEEN.fetch_add(1, Ordering::Relaxed);\n    }\n    if SEEN.load(Ordering::Relaxed) > 1000 {\n        return Ok((rest, (m, e.map(|x| x.max(-308)))));\n    }\n    Ok((rest, (m, e)))\n")],
r'''
    let first = show(literal::numeric_literal("1.5e-400"));
    for _ in 0..1100 { literal::numeric_literal("1.5e1"); }
    same(first, show(literal::numeric_literal("1.5e-400")));
''', "a thousand numbers with an exponent before the one that is parsed", "the result depends on what was parsed before")

seed("c01-label-index", "C01", [("src/graph.rs", "            |(_, label)| BlankNode::Label(label.to_string()),\n",
"            |(_, label): (_, &str)| {\n                // short labels only\n                let n = label.len().min(64);\n                BlankNode::Label(if n < label.len() && label.starts_with('b') {\n                    format!(\"{}{}\", &label[..n], &label[n..])\n                } else {\n                    label.to_string()\n                })\n            },\n")],
r'''
    let t = format!("_:b{}", "\u{e9}".repeat(40));
    has(&show(graph::blank_node(&t)), "Label(");
    has(&show(graph::blank_node(&format!("_:b{}", "e".repeat(90)))), "Label(");
''', "a long blank node label of non-ASCII characters", "a slice inside a character panics")

seed("c01-offset-arith", "C01", [("src/clauses.rs", "            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },\n",
"            |(limit, offset)| {\n                // the last row has to have a number\n                let last = offset.map(|o: u64| o + limit);\n                LimitOffsetClause::LimitOffset {\n                    limit,\n                    offset: last.map(|l| l - limit),\n                }\n            },\n")],
r'''
    has(&show(clauses::limit_offset_clause("LIMIT 18446744073709551615 OFFSET 2")), "offset: Some(2)");
    has(&show(clauses::limit_offset_clause("LIMIT 3 OFFSET 2")), "offset: Some(2)");
''', "a LIMIT near the largest number with an OFFSET", "the sum overflows and the parser panics")
