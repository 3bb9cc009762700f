# Reference grammar: what every parsing rule of /repo has to accept, where it
# stops, and which tree value it builds.  Written from the SPARQL 1.1 grammar
# and the public tree types; compared rule by rule with the analysed source.
#
#   'x' exact text    "kw" keyword in any ASCII letter case    [..] one character
#   name  another rule      a b c  in sequence     a | b  first that matches
#   e? e* e+   !e not followed by   &e followed by   ^e  committed
#   list<e, s>  one or more e separated by s     list0<e, s>  zero or more
#   $e the text matched     label:e   @e the value of the sequence
#   { .. } value of the alternative   {? .. } same, but a failed conversion is no match
#   _ white space (maybe none)   __ some white space
#   ___ end of a keyword: white space, or an opening bracket next
#
# `inline` rules are used in place wherever the rule of that name is called.

# ---------------------------------------------------------------- white space
inline sp = $( ( [ \t\r\n] | '#' [^\r\n]* [\r\n]? )* )
inline sp1 = $( ( [ \t\r\n] | '#' [^\r\n]* [\r\n]? )+ )
inline new_line = $( [\r\n] | '#' [^\r\n]* [\r\n]? )
inline kwsep = __ | &[({<]

# ---------------------------------------------------------------- names
class ALPHA = [a-zA-Z]
class UNI = [\u{C0}-\u{D6}\u{D8}-\u{F6}\u{F8}-\u{2FF}\u{370}-\u{37D}\u{37F}-\u{1FFF}\u{200C}-\u{200D}\u{2070}-\u{218F}\u{2C00}-\u{2FEF}\u{3001}-\u{D7FF}\u{F900}-\u{FDCF}\u{FDF0}-\u{FFFD}\u{10000}-\u{EFFFF}]
class EXTRA = [\u{B7}\u{300}-\u{36F}\u{203F}-\u{2040}]
class BASE = ALPHA UNI
class USC = BASE [_]
class PNCHAR = USC [\-0-9] EXTRA
inline pn_chars_base_one = $BASE
inline pn_chars_u_one = $USC
inline pn_chars1 = $( PNCHAR+ )
inline pn_chars_one = $PNCHAR
inline pn_chars_tail = $( ( '.'* PNCHAR+ )* )
inline hex_primary = $( [0-9a-fA-F] [0-9a-fA-F] )
inline plx = $( '%' [0-9a-fA-F] [0-9a-fA-F] | '\\' [_~.\-!$&'()*+,;=/?#@%] )
rule pn_local = $( ( USC | ':' | [0-9] | plx ) ( '.'* ( ( PNCHAR | ':' )+ | plx ) )* )
rule pn_prefix = $( BASE pn_chars_tail )
inline pname_ns = @pn_prefix? ':'
inline pname_ln = ns:pname_ns local:pn_local { (ns, local) }
rule prefixed_name = ns:pname_ns local:pn_local { PrefixedName::PnameLN{pn_prefix: ns, pn_local: local} }
                   | ns:pname_ns { PrefixedName::PnameNS(ns) }
rule iri_ref = '<' @$( [^\u{0}- <>"{}|^\\`]* ) '>'
rule iri = i:iri_ref { Iri::Iri(i) } | p:prefixed_name { Iri::PrefixedName(p) }
rule var_name = $( ( USC | [0-9] ) ( USC | [0-9] | EXTRA )* )
rule var = '?' n:var_name { Var::QMark(n) } | '$' n:var_name { Var::Dollar(n) }
rule blank_node = '_:' l:$( ( USC | [0-9] ) pn_chars_tail ) { BlankNode::Label(l) }
                | '[' _ ']' { BlankNode::Anon }
rule nil = '(' @_ ')'
rule anon = '[' @^( @_ ']' )

# ---------------------------------------------------------------- literals
rule string_literal = '\'' @escaped<[^'\\], '\\', [\"tbnrf\\']> '\''
                    | '"' @escaped<[^"\\], '\\', [\"tbnrf\\']> '"'
                    | '\'\'' !'\'' { "" }
                    | '""' !'"' { "" }
rule language_tag = '@' @$( ALPHA+ ( '-' [a-zA-Z0-9]+ )* )
inline descriptor = l:language_tag { RdfLiteralDescriptor::LangTag(l) }
                  | '^^' i:iri { RdfLiteralDescriptor::IriRef(i) }
rule rdf_literal = s:string_literal d:descriptor? { RdfLiteral{literal: s, descriptor: d} }
rule string_literal_arg = s:string_literal "^^xsd:string" { StringLiteral::Typed(s) }
                        | s:string_literal l:language_tag { StringLiteral::Language((s, l)) }
                        | s:string_literal { StringLiteral::Simple(s) }
rule boolean = "false" { false } | "true" { true }
inline sign = '+' { Sign::POS } | '-' { Sign::NEG }
rule exponent = [eE] s:$( [+\-]? [0-9]+ ) {? parse_i64(s) }
inline recognize_spaqrql_float = $( [+\-]? ( [0-9]+ ( '.' ( [0-9]+ )? )? | '.' [0-9]+ ) )
rule sparql_decimal = s:$( [+\-]? ( [0-9]+ ( '.' [0-9]* )? | '.' [0-9]+ ) ) {? parse_f64(s) }
rule sparql_double = d:sparql_decimal e:exponent? { (d, e) }
rule sparql_int = s:$( [+\-]? [0-9]+ ) !'.' !exponent {? parse_i64(s) }
rule numeric_literal = n:sparql_int { NumericLiteral::Int(n) }
                     | n:sparql_double { NumericLiteral::Double(n) }
inline silent = "silent" { true }
inline distinct = "distinct" { true }
inline silent_flag = s:( "silent" __ )? { is_some(s) }
inline distinct_flag = s:( "distinct" __ )? { is_some(s) }

# ---------------------------------------------------------------- statements
rule sparql_query_stmt = _ p:prologue _ q:sparql_query v:( _ "values" ___ @datablock )?
                         { SparqlQueryStatement{prologue: p, query: q, values: v} }
rule sparql_query = q:select_query { SparqlQuery::Select(q) }
                  | q:construct_query { SparqlQuery::Construct(q) }
                  | q:describe_query { SparqlQuery::Describe(q) }
                  | q:ask_query { SparqlQuery::Ask(q) }
rule prologue = l:list0<( b:base_decl { BaseOrPrefixDecl::Base(b) } | p:prefix_decl { BaseOrPrefixDecl::Prefix(p) } ), __>
                { Prologue(l) }
rule base_decl = "base" __ @iri_ref
rule prefix_decl = "prefix" _ n:pname_ns _ i:iri_ref { PrefixDecl{pname_ns: n, iri_ref: i} }

rule select_query = s:select_clause _ d:dataset_clauses _ w:where_clause _ m:solution_modifier
                    { SelectQuery{select_clause: s, dataset_clauses: d, where_clause: w, solution_modifier: m} }
rule sub_select = s:select_clause _ w:where_clause _ m:solution_modifier _ v:values_clause
                  { SubSelect{select_clause: s, where_clause: w, solution_modifier: m, values_clause: v} }
rule select_clause = "select" m:( __ @select_modifier )? __ v:select_vars
                     { SelectClause{modifier: m, vars: v} }
rule select_modifier = "distinct" { SelectModifier::Distinct } | "reduced" { SelectModifier::Reduced }
rule select_vars = '*' { SelectVars::All }
                 | l:list<var_or_expression_as_var, _> { SelectVars::VarOrExpressionAsVar(l) }
rule var_or_expression_as_var = v:var { VarOrExpressionAsVar::Var(v) }
                              | e:expression_as_var { VarOrExpressionAsVar::ExpressionAsVar(e) }
rule construct_query = "construct" ___ @( q:sub_construct { ConstructQuery::SubConstruct(q) }
                                        | q:sub_triples { ConstructQuery::SubTriples(q) } )
rule sub_construct = t:construct_template _ d:dataset_clauses _ w:where_clause _ m:solution_modifier
                     { SubConstruct{construct_template: t, dataset_clauses: d, where_clause: w, solution_modifier: m} }
rule sub_triples = d:dataset_clauses _ "where" _ '{' _ t:triples_template? _ '}' _ m:solution_modifier
                   { SubTriples{dataset_clauses: d, triples_template: t, solution_modifier: m} }
rule construct_template = '{' _ l:list0<triples_same_subject, ( _ '.' _ )+> ( _ '.' )? _ '}' { ConstructTemplate(l) }
rule describe_query = "describe" __ v:var_or_iris_or_all _ d:dataset_clauses _ w:( @where_clause _ )? m:solution_modifier
                      { DescribeQuery{var_or_iris_or_all: v, dataset_clauses: d, where_clause: w, solution_modifier: m} }
rule var_or_iris_or_all = l:list<var_or_iri, _> { VarOrIrisOrAll::VarIri(l) } | '*' { VarOrIrisOrAll::All }
rule ask_query = "ask" _ d:dataset_clauses _ w:where_clause _ m:solution_modifier
                 { AskQuery{dataset_clauses: d, where_clause: w, solution_modifier: m} }
inline dataset_clauses = list0<data_set_clause, _>
rule data_set_clause = "from" ___ @default_or_named_iri
rule default_or_named_iri = i:named_iri { DefaultOrNamedIri::Named(i) } | i:iri { DefaultOrNamedIri::Default(i) }
rule named_iri = "named" ___ @iri

# ---------------------------------------------------------------- solution modifiers
rule where_clause = ( "where" _ )? @group_graph_pattern
rule solution_modifier = g:group_clause? h:( _ @having_clause )? o:( _ @order_clause )? l:( _ @limit_offset_clause )?
                         { SolutionModifier{order_by: o, group_by: g, having: h, limit_offset: l} }
rule group_clause = "group" __ "by" __ l:list<group_condition, _> { GroupClause(l) }
rule group_condition = b:built_in_call { GroupCondition::BuiltInCall(b) }
                     | f:function_call { GroupCondition::FunctionCall(f) }
                     | e:expression_as_var_opt { GroupCondition::ExpressionAsVarOpt(e) }
                     | v:var { GroupCondition::Var(v) }
rule having_clause = "having" ___ l:list<constraint, _> { HavingClause(l) }
rule order_clause = "order" __ "by" __ l:list<order_condition, _> { OrderClause(l) }
rule order_condition = o:order_expression { OrderCondition::Order(o) }
                     | c:constraint { OrderCondition::Constraint(c) }
                     | v:var { OrderCondition::Var(v) }
rule order_expression = o:order _ e:bracketted_expression { OrderExpression{order: o, expression: e} }
rule order = "asc" { Order::Asc } | "desc" { Order::Desc }
inline number = n:$( [0-9]+ ) {? parse_u64(n) }
rule limit_clause = "limit" _ @number
rule offset_clause = "offset" _ @number
rule limit_offset_clause = l:limit_clause _ o:offset_clause? { LimitOffsetClause::LimitOffset{limit: l, offset: o} }
                         | o:offset_clause _ l:limit_clause? { LimitOffsetClause::OffsetLimit{offset: o, limit: l} }

# ---------------------------------------------------------------- inline data
rule values_clause = ( "values" ___ @datablock )?
rule inline_data = "values" ___ @datablock
rule datablock = d:inline_data_one_var { DataBlock::InlineDataOneVar(d) }
               | d:inline_data_full { DataBlock::InlineDataFull(d) }
rule inline_data_one_var = v:var _ '{' _ l:( _ @datablock_value _ )* _ '}'
                           { InlineDataOneVar{var: v, values: l} }
rule inline_data_full = '(' _ v:( _ @var _ )* _ ')'
                        _ '{' _ r:( _ '(' _ @( _ @datablock_value _ )* _ ')' _ )* _ '}'
                        { InlineDataFull{vars: v, data_block_values: r} }
rule datablock_value = i:iri { DataBlockValue::Iri(i) }
                     | l:rdf_literal { DataBlockValue::RdfLiteral(l) }
                     | n:numeric_literal { DataBlockValue::NumericLiteral(n) }
                     | b:boolean { DataBlockValue::BooleanLiteral(b) }
                     | "undef" { DataBlockValue::UnDef }

# ---------------------------------------------------------------- graph patterns
rule group_graph_pattern = '{' _ @( s:sub_select { GroupGraphPattern::SubSelect(s) }
                                  | s:group_graph_pattern_sub { GroupGraphPattern::GroupGraphPatternSub(s) } ) _ '}'
rule group_graph_pattern_sub = t:( @triples_block _ )? l:list0<group_graph_pattern_and_triples, _>
                               { GroupGraphPatternSub{triples_block: t, graph_pattern_and_triples: l} }
rule group_graph_pattern_and_triples = g:graph_pattern_not_triples ( _ '.' )? t:( _ @triples_block )?
                                       { GraphPatternAndTriples{graph_pattern: g, triples: t} }
rule graph_pattern_not_triples = g:group_or_union_graph_pattern { GraphPatternNotTriples::GroupOrUnion(g) }
                               | g:optional_group_graph_pattern { GraphPatternNotTriples::Optional(g) }
                               | g:minus_graph_pattern { GraphPatternNotTriples::Minus(g) }
                               | g:graph_graph_pattern { GraphPatternNotTriples::Graph(g) }
                               | g:service_graph_pattern { GraphPatternNotTriples::Service(g) }
                               | g:filter { GraphPatternNotTriples::Filter(g) }
                               | g:bind { GraphPatternNotTriples::Bind(g) }
                               | g:inline_data { GraphPatternNotTriples::InlineData(g) }
rule group_or_union_graph_pattern = l:list<group_graph_pattern, ( _ "union" _ )> { GroupOrUnionGraphPattern(l) }
rule optional_group_graph_pattern = "optional" ___ @group_graph_pattern
rule minus_graph_pattern = "minus" ___ @group_graph_pattern
rule graph_graph_pattern = "graph" __ v:var_or_iri _ g:group_graph_pattern
                           { GraphGraphPattern{var_or_iri: v, graph_pattern: g} }
rule service_graph_pattern = "service" __ s:silent_flag v:var_or_iri _ g:group_graph_pattern
                             { ServiceGraphPattern{var_or_iri: v, silent: s, graph_pattern: g} }
rule filter = "filter" ___ @constraint
rule bind = "bind" ___ @expression_as_var
rule constraint = e:bracketted_expression { Constraint::Bracketted(e) }
                | b:built_in_call { Constraint::BuiltInCall(b) }
                | f:function_call { Constraint::FunctionCall(f) }
rule function_call = i:iri _ a:arg_list { FunctionCall{iri: i, args: a} }
rule arg_list = nil { ArgList::Nil }
              | '(' _ d:distinct_flag l:list<expression, ( _ ',' _ )> _ ')' { ArgList::Expression{distinct: d, expressions: l} }
rule expression_list = nil { ExpressionList::Nil }
                     | '(' _ l:list<expression, ( _ ',' _ )> _ ')' { ExpressionList::List(l) }

# ---------------------------------------------------------------- triples
rule triples_block = l:list<triples_same_subject_path, ( _ '.' _ )+> ( _ '.' )? { TriplesBlock(l) }
rule triples_template = @list<triples_same_subject, ( _ '.' _ )+> ( _ '.' )?
rule triples_same_subject = n:triples_node _ p:property_list_not_empty? { TriplesSameSubject::Node{triples_node: n, property_list: p} }
                          | t:var_or_term __ p:property_list_not_empty { TriplesSameSubject::Term{var_or_term: t, property_list: p} }
inline property_list = property_list_not_empty?
rule property_list_not_empty = l:list<( v:verb _ o:object_list { VerbList{verb: v, object_list: o} } ), ( _ ( _ ';' _ )+ _ )> ( _ ';' )*
                               { PropertyList(l) }
rule verb = v:var_or_iri { Verb::VarOrIri(v) } | 'a' { Verb::A }
rule object_list = l:list<graph_node, ( _ ',' _ )> { ObjectList(l) }
rule graph_node = t:var_or_term { GraphNode::VarOrTerm(t) } | n:triples_node { GraphNode::TriplesNode(n) }
rule triples_node = c:collection { TriplesNode::Collection(c) }
                  | p:blank_node_property_list { TriplesNode::BlankNodePropertyList(p) }
rule collection = '(' _ l:( _ @graph_node _ )+ _ ')' { Collection(l) }
rule blank_node_property_list = '[' _ @property_list_not_empty _ ']'
rule var_or_term = v:var { VarOrTerm::Var(v) } | t:graph_term { VarOrTerm::Term(t) }
rule var_or_iri = v:var { VarOrIri::Var(v) } | i:iri { VarOrIri::Iri(i) }
rule graph_term = i:iri { GraphTerm::Iri(i) }
                | l:rdf_literal { GraphTerm::RdfLiteral(l) }
                | n:numeric_literal { GraphTerm::NumericLiteral(n) }
                | b:boolean { GraphTerm::BooleanLiteral(b) }
                | b:blank_node { GraphTerm::BlankNode(b) }
                | nil { GraphTerm::Nil }

# ---------------------------------------------------------------- paths
rule triples_same_subject_path = t:var_or_term __ p:property_list_path_not_empty
                                 { TriplesSameSubjectPath::Term{var_or_term: t, property_list: p} }
                               | n:triples_node_path _ p:property_list_path_not_empty?
                                 { TriplesSameSubjectPath::Node{triples_node: n, property_list: p} }
inline property_list_path = property_list_path_not_empty?
rule property_list_path_not_empty = v:verb_path_or_simple __ o:object_list_path
                                    e:( ( _ ';' _ )+ @property_list_path_entry )* ( _ ';' )*
                                    { PropertyListPath{verb_path_or_simple: v, object_list_path: o, entries: e} }
rule property_list_path_entry = v:verb_path_or_simple __ o:object_list { PropertyListPathEntry{verb_path_or_simple: v, object_list: o} }
rule verb_path_or_simple = p:path_alternative { VerbPathOrSimple::Path(p) } | v:var { VerbPathOrSimple::Simple(v) }
rule object_list_path = l:list<graph_node_path, ( _ ',' _ )> { ObjectListPath(l) }
rule graph_node_path = t:var_or_term { GraphNodePath::VarOrTerm(t) } | n:triples_node_path { GraphNodePath::TriplesNodePath(n) }
rule triples_node_path = p:blank_node_property_list_path { TriplesNodePath::BlankNodePropertyListPath(p) }
                       | '(' l:( _ @graph_node_path _ )+ ')' { TriplesNodePath::CollectionPath(l) }
rule blank_node_property_list_path = '[' _ @property_list_path_not_empty _ ']'
rule path_alternative = l:list<path_sequence, ( _ '|' _ )> { PathAlternative(l) }
rule path_sequence = l:list<path_elt_or_inverse, ( _ '/' _ )> { PathSequence(l) }
rule path_elt_or_inverse = e:path_elt { PathEltOrInverse::PathElt(e) } | '^' e:path_elt { PathEltOrInverse::Inverse(e) }
rule path_elt = p:path_primary m:path_mod? { PathElt{path_primary: p, path_mod: m} }
rule path_mod = '?' { PathMod::QuestionMark } | '*' { PathMod::Asterisk } | '+' { PathMod::Plus }
rule path_primary = i:iri { PathPrimary::Iri(i) }
                  | 'a' { PathPrimary::A }
                  | '!' s:path_negated_property_set { PathPrimary::PathNegatedPropertySet(s) }
                  | '(' _ p:path_alternative _ ')' { PathPrimary::Path(p) }
rule path_negated_property_set = o:path_one_in_property_set { PathNegatedPropertySet([o]) }
                               | '(' _ l:list<path_one_in_property_set, ( _ '|' _ )> _ ')' { PathNegatedPropertySet(l) }
rule path_one_in_property_set = i:iri_or_a_or_caret { PathOneInPropertySet(i) }
rule iri_or_a_or_caret = i:iri_or_a { IriOrAOrCaret::IriOrA(i) } | '^' i:iri_or_a { IriOrAOrCaret::Caret(i) }
rule iri_or_a = i:iri { IriOrA::Iri(i) } | 'a' { IriOrA::A }

# ---------------------------------------------------------------- expressions
rule expression = l:list<conditional_and_expression, ( _ '||' _ )> { Expression(l) }
rule conditional_and_expression = l:list<relational_expression, ( _ '&&' _ )> { ConditionalAndExpression(l) }
rule relational_expression = l:additive_expression r:( _ @op_expression )? { RelationalExpression{lhs: l, rhs: r} }
rule op_expression = '=' _ e:additive_expression { OpExpression::EQ(e) }
                   | '!=' _ e:additive_expression { OpExpression::NE(e) }
                   | '<' _ e:additive_expression { OpExpression::LT(e) }
                   | '>' _ e:additive_expression { OpExpression::GT(e) }
                   | '<=' _ e:additive_expression { OpExpression::LE(e) }
                   | '>=' _ e:additive_expression { OpExpression::GE(e) }
                   | "in" _ e:expression_list { OpExpression::IN(e) }
                   | "not" __ "in" _ e:expression_list { OpExpression::NIN(e) }
rule additive_expression = l:multiplicative_expression r:( _ @add_expression )* { AdditiveExpression{lhs: l, rhs: r} }
rule add_expression = &[+\-] n:numeric_literal m:( _ @mult_expression )* { AddExpression::Numeric{numeric: n, expressions: m} }
                    | '+' _ e:multiplicative_expression { AddExpression::Add(e) }
                    | '-' _ e:multiplicative_expression { AddExpression::Sub(e) }
rule multiplicative_expression = l:unary_expression r:( _ @mult_expression )* { MultiplicativeExpression{lhs: l, rhs: r} }
rule mult_expression = '*' _ e:unary_expression { MultExpression::Mult(e) }
                     | '/' _ e:unary_expression { MultExpression::Div(e) }
rule unary_expression = '!' _ e:primary_expression { UnaryExpression::Not(e) }
                      | '+' _ e:primary_expression { UnaryExpression::Add(e) }
                      | '-' _ e:primary_expression { UnaryExpression::Sub(e) }
                      | e:primary_expression { UnaryExpression::Default(e) }
rule primary_expression = e:bracketted_expression { PrimaryExpression::BrackettedExpression(e) }
                        | b:built_in_call { PrimaryExpression::BuiltInCall(b) }
                        | i:iri_or_fun { PrimaryExpression::IriOrFunction(i) }
                        | l:rdf_literal { PrimaryExpression::RdfLiteral(l) }
                        | n:numeric_literal { PrimaryExpression::NumericLiteral(n) }
                        | b:boolean { PrimaryExpression::BooleanLiteral(b) }
                        | v:var { PrimaryExpression::Var(v) }
rule iri_or_fun = i:iri a:( _ @arg_list )? { IriOrFunction{iri: i, arg_list: a} }
rule bracketted_expression = '(' _ @expression _ ')'
rule expression_as_var = '(' _ e:expression _ "as" _ v:var _ ')' { ExpressionAsVar{expression: e, var: v} }
rule expression_as_var_opt = '(' _ e:expression v:( _ "as" _ @var )? _ ')' { ExpressionAsVarOpt{expression: e, var: v} }
rule distinct_expression = d:distinct_flag e:expression { DistinctExpression{distinct: d, expression: e} }

# ---------------------------------------------------------------- built-in calls
inline arg1 = _ '(' _ @expression _ ')'
inline arg2 = _ '(' _ a:expression _ ',' _ b:expression _ ')' { (a, b) }
inline arg3 = _ '(' _ a:expression _ ',' _ b:expression _ ',' _ c:expression _ ')' { (a, b, c) }
inline bracketted_expr3 = '(' _ a:expression _ ',' _ b:expression c:( _ ',' _ @expression )? _ ')' { (a, b, c) }
rule regex_expression = "regex" _ '(' _ a:expression _ ',' _ b:expression c:( _ ',' _ @expression )? _ ')'
                        { RegexExpression{first: a, second: b, third: c} }
rule substring_expression = "substr" _ '(' _ a:expression _ ',' _ b:expression c:( _ ',' _ @expression )? _ ')'
                            { RegexExpression{first: a, second: b, third: c} }
rule str_replace_expression = "replace" _ '(' _ a:expression _ ',' _ b:expression _ ',' _ c:expression d:( _ ',' _ @expression )? _ ')'
                              { StrReplaceExpression{first: a, second: b, third: c, fourth: d} }
rule built_in_call = a:aggregate { BuiltInCall::Aggregate(a) }
    | "str" e:arg1 { BuiltInCall::Str(e) }
    | "lang" e:arg1 { BuiltInCall::Lang(e) }
    | "langmatches" e:arg2 { BuiltInCall::LangMatches(e) }
    | "datatype" e:arg1 { BuiltInCall::Datatype(e) }
    | "bound" _ '(' _ v:var _ ')' { BuiltInCall::Bound(v) }
    | "iri" e:arg1 { BuiltInCall::Iri(e) }
    | "uri" e:arg1 { BuiltInCall::Uri(e) }
    | "bnode" e:arg1 { BuiltInCall::Bnode(some(e)) }
    | "bnode" _ nil { BuiltInCall::Bnode(none) }
    | "rand" _ nil { BuiltInCall::Rand }
    | "abs" e:arg1 { BuiltInCall::Abs(e) }
    | "ceil" e:arg1 { BuiltInCall::Ceil(e) }
    | "floor" e:arg1 { BuiltInCall::Floor(e) }
    | "round" e:arg1 { BuiltInCall::Round(e) }
    | "concat" _ l:expression_list { BuiltInCall::Concat(l) }
    | "strlen" e:arg1 { BuiltInCall::StrLen(e) }
    | "ucase" e:arg1 { BuiltInCall::UCase(e) }
    | "lcase" e:arg1 { BuiltInCall::LCase(e) }
    | "encode_for_uri" e:arg1 { BuiltInCall::EncodeForUri(e) }
    | "contains" e:arg2 { BuiltInCall::Contains(e) }
    | "strstarts" e:arg2 { BuiltInCall::StrStarts(e) }
    | "strends" e:arg2 { BuiltInCall::StrEnds(e) }
    | "strbefore" e:arg2 { BuiltInCall::StrBefore(e) }
    | "strafter" e:arg2 { BuiltInCall::StrAfter(e) }
    | s:substring_expression { BuiltInCall::SubStr(s) }
    | s:str_replace_expression { BuiltInCall::Replace(s) }
    | "year" e:arg1 { BuiltInCall::Year(e) }
    | "month" e:arg1 { BuiltInCall::Month(e) }
    | "day" e:arg1 { BuiltInCall::Day(e) }
    | "hours" e:arg1 { BuiltInCall::Hours(e) }
    | "minutes" e:arg1 { BuiltInCall::Minutes(e) }
    | "seconds" e:arg1 { BuiltInCall::Seconds(e) }
    | "timezone" e:arg1 { BuiltInCall::Timezone(e) }
    | "tz" e:arg1 { BuiltInCall::Tz(e) }
    | "now" _ nil { BuiltInCall::Now }
    | "uuid" _ nil { BuiltInCall::UUID }
    | "struuid" _ nil { BuiltInCall::StrUUID }
    | "md5" e:arg1 { BuiltInCall::MD5(e) }
    | "sha1" e:arg1 { BuiltInCall::SHA1(e) }
    | "sha256" e:arg1 { BuiltInCall::SHA256(e) }
    | "sha384" e:arg1 { BuiltInCall::SHA384(e) }
    | "sha512" e:arg1 { BuiltInCall::SHA512(e) }
    | "coalesce" _ l:expression_list { BuiltInCall::Coalesce(l) }
    | "if" e:arg3 { BuiltInCall::If(e) }
    | "strlang" e:arg2 { BuiltInCall::StrLang(e) }
    | "strdt" e:arg2 { BuiltInCall::StrDt(e) }
    | "sameterm" e:arg2 { BuiltInCall::SameTerm(e) }
    | "isiri" e:arg1 { BuiltInCall::IsIri(e) }
    | "isuri" e:arg1 { BuiltInCall::IsUri(e) }
    | "isblank" e:arg1 { BuiltInCall::IsBlank(e) }
    | "isliteral" e:arg1 { BuiltInCall::IsLiteral(e) }
    | "isnumeric" e:arg1 { BuiltInCall::IsNumeric(e) }
    | r:regex_expression { BuiltInCall::Regex(r) }
    | "exists" ___ g:group_graph_pattern { BuiltInCall::ExistsFunc(g) }
    | "not" __ "exists" _ g:group_graph_pattern { BuiltInCall::NotExistsFunc(g) }

# ---------------------------------------------------------------- aggregates
rule aggregate = c:count { Aggregate::Count(c) }
               | "sum" _ '(' _ e:distinct_expression _ ')' { Aggregate::Sum(e) }
               | "min" _ '(' _ e:distinct_expression _ ')' { Aggregate::Min(e) }
               | "max" _ '(' _ e:distinct_expression _ ')' { Aggregate::Max(e) }
               | "avg" _ '(' _ e:distinct_expression _ ')' { Aggregate::Avg(e) }
               | "sample" _ '(' _ e:distinct_expression _ ')' { Aggregate::Sample(e) }
               | g:group_concat { Aggregate::GroupConcat(g) }
rule count = "count" _ '(' _ d:distinct_flag t:count_target _ ')' { Count{distinct: d, target: t} }
rule count_target = '*' { CountTarget::All } | e:expression { CountTarget::Expr(e) }
rule group_concat = "group_concat" _ '(' _ e:distinct_expression
                    s:( _ ';' _ "separator" _ '=' _ @string_literal )? _ ')'
                    { GroupConcat{expression: e, separator: s} }

# ---------------------------------------------------------------- updates
rule update = _ p:prologue r:( _ s:update_stmt i:( _ ';' _ @update )? { (s, i) } )? { Update{prologue: p, update_stmt: opt_first(r), inner_update: opt_second(r)} }
rule update_stmt = s:load_stmt { UpdateStatement::Load(s) }
                 | s:clear_stmt { UpdateStatement::Clear(s) }
                 | s:drop_stmt { UpdateStatement::Drop(s) }
                 | s:create_stmt { UpdateStatement::Create(s) }
                 | s:add_stmt { UpdateStatement::Add(s) }
                 | s:move_stmt { UpdateStatement::Move(s) }
                 | s:copy_stmt { UpdateStatement::Copy(s) }
                 | s:insert_data { UpdateStatement::InsertData(s) }
                 | s:delete_data { UpdateStatement::DeleteData(s) }
                 | s:delete_where_data { UpdateStatement::DeleteWhere(s) }
                 | s:modify_stmt { UpdateStatement::Modify(s) }
rule load_stmt = "load" __ s:silent_flag i:iri g:( _ "into" _ @graph_ref )?
                 { LoadStatement{iri: i, silent: s, graph_ref: g} }
rule clear_stmt = "clear" __ s:silent_flag g:graph_ref_all { ClearStatement{silent: s, graph_ref_all: g} }
rule drop_stmt = "drop" __ s:silent_flag g:graph_ref_all { DropStatement{silent: s, graph_ref_all: g} }
rule create_stmt = "create" __ s:silent_flag g:graph_ref { CreateStatement{silent: s, graph_ref: g} }
rule add_stmt = "add" __ s:silent_flag a:graph_or_default _ "to" _ b:graph_or_default { AddStatement{silent: s, from: a, to: b} }
rule move_stmt = "move" __ s:silent_flag a:graph_or_default _ "to" _ b:graph_or_default { MoveStatement{silent: s, from: a, to: b} }
rule copy_stmt = "copy" __ s:silent_flag a:graph_or_default _ "to" _ b:graph_or_default { CopyStatement{silent: s, from: a, to: b} }
inline silent_from_to = s:silent_flag a:graph_or_default _ "to" _ b:graph_or_default { (s, a, b) }
inline silent_graph_ref_all = s:silent_flag g:graph_ref_all { (s, g) }
rule graph_ref = "graph" __ @iri
rule graph_or_default = "default" { GraphOrDefault::Default } | ( "graph" __ )? i:iri { GraphOrDefault::Graph(i) }
rule graph_ref_all = "default" { GraphRefAll::Default }
                   | "named" { GraphRefAll::Named }
                   | "all" { GraphRefAll::All }
                   | g:graph_ref { GraphRefAll::GraphRef(g) }
rule insert_data = "insert" ___ "data" ___ @quads_pattern
rule delete_data = "delete" ___ "data" ___ @quads_pattern
rule delete_where_data = "delete" ___ "where" ___ @quads_pattern
rule insert_clause = "insert" ___ @quads_pattern
rule delete_clause = "delete" ___ @quads_pattern
rule using_clause = "using" ___ @default_or_named_iri
rule modify_stmt = i:( "with" ___ @iri _ )? d:delete_insert _ u:list0<using_clause, _> _ "where" _ w:group_graph_pattern
                   { ModifyStatement{iri: i, delete_insert: d, using_clauses: u, where_group_graph: w} }
rule delete_insert = d:delete_clause i:( _ @insert_clause )? { DeleteInsert::DeleteInsert{delete: d, insert: i} }
                   | i:insert_clause { DeleteInsert::Insert(i) }
rule quads_pattern = '{' _ @quads _ '}'
inline quad_data = quads_pattern
rule quads = t:triples_template? e:( _ @quads_entry )* { Quads{first_triple: t, entries: e} }
rule quads_entry = q:quads_not_triples ( _ '.' )? t:( _ @triples_template )?
                   { QuadsEntry{quads_not_triples: q, triples_template: t} }
rule quads_not_triples = "graph" _ v:var_or_iri _ '{' _ t:triples_template? _ '}'
                         { QuadsNotTriples{var_or_iri: v, triples_template: t} }
