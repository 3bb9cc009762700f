#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
S = lambda *fs: ["src/" + f for f in fs]
ANY = "Every string given to any parser entry point."
FEW = "Inputs. The tests try a few hand-picked ASCII strings per rule; "

p("C01", "No input makes the parser, or an operation on its result, panic",
  "Parsing any string - valid or not, ASCII or not, of any length up to the available stack - returns success or an error and never panics. No public operation on a parsed value (formatting, comparing, cloning, querying, converting) panics either.",
  ["inputs"], ANY, FEW + "none feeds a multi-byte character next to a hand-written slice or a keyword.",
  S("terminals.rs", "path.rs", "literal.rs", "query/mod.rs", "clauses.rs"),
  [("character-boundary-safe slicing, fallible conversions mapped to parse errors", "src/path.rs path_mod, src/literal.rs sparql_int/sparql_decimal, src/clauses.rs int_clause"),
   ("case-insensitive keyword matching that cannot split a character", "src/terminals.rs tag_no_case")],
  observe=["process does not panic"])
p("C02", "Every repetition and every recursion consumes input",
  "Parsing terminates on every string: no grammar rule re-enters itself at the same input position, and no repeated item or list separator can match the empty string. In particular a well-formed list is never rejected because its optional separator matched nothing.",
  ["inputs"], ANY, FEW + "the offending positions (end of list, adjacent items without white space) are not among them.",
  S("terminals.rs", "arithmetic.rs", "clauses.rs", "group.rs", "graph.rs", "triple.rs", "path.rs", "query/select.rs", "query/describe.rs", "query/ask.rs", "query/construct.rs", "operations.rs", "var.rs"),
  [("repetition combinators over consuming items", "every many0/many1/separated list in src")],
  observe=["IResult of every parser"])
p("C03", "A complete string never yields an 'incomplete input' result",
  "Every parser works on complete text: whatever string it is given, it answers with success, a recoverable error or a failure, and never asks for more input.",
  ["inputs"], ANY, FEW + "an Incomplete result needs the text to end at one particular token.",
  S("arithmetic.rs", "path.rs", "terminals.rs"),
  [("only complete-input primitives", "imports of nom::*::complete in every module")],
  observe=["Err::Incomplete never returned"])
p("C04", "The remainder is exactly the text after what was consumed",
  "On success the returned remainder is the suffix of the input that follows the consumed text (the last matched token and any white space the rule takes after it): no text is skipped, duplicated, or read twice, every alternative starts where the rule started, and every text fragment stored in the tree is a verbatim copy of the input it was recognised from.",
  ["inputs"], ANY, FEW + "most of them leave an empty remainder.",
  S("literal.rs", "path.rs", "terminals.rs", "expression/mod.rs"),
  [("input threading through combinators and through the hand-written parsers", "src/literal.rs sparql_int, sparql_decimal; src/path.rs path_mod; src/terminals.rs")],
  observe=["the remainder of IResult"])
p("C05", "A hard failure never hides an alternative that could match",
  "A parser only reports an unrecoverable failure at a point where no other alternative of any enclosing rule could have accepted the text; in particular '(' and '[' do not commit to the empty list or the anonymous blank node before their closing bracket is seen.",
  ["inputs"], ANY, FEW + "none parses a non-empty list where an empty one is also allowed.",
  S("terminals.rs", "graph.rs", "call.rs", "expression/mod.rs", "literal.rs"),
  [("use of cut()", "src/terminals.rs anon/nil, src/literal.rs exponent")],
  observe=["Err::Failure results"])
p("C06", "Backtracking never re-parses a nested construct",
  "When one alternative of a rule fails, the next alternative never parses again, from the same position, a nested construct (expression, group, list, path, triples) which the failed one had already parsed; so the work for nested input grows polynomially and not exponentially with nesting depth.",
  ["inputs"], "Every nesting depth of brackets, groups, collections and function arguments.", FEW + "none nests more than two levels, so an exponential alternative passes them all.",
  S("expression/mod.rs", "arithmetic.rs", "call.rs", "graph.rs", "triple.rs", "path.rs", "operations.rs", "query/construct.rs"),
  [("alternatives told apart before a recursive rule is entered", "every alt() in src")],
  observe=["parse time as a function of nesting depth"])
p("C07", "Parsing is a pure function of the input text",
  "The result of parsing depends on nothing but the text: no global or thread-local state, clock, randomness, environment, file or console is read or written, and no unsafe code is used; so concurrent and repeated parses of one text give equal results that own their data.",
  ["inputs", "schedules", "histories"], "All texts, any interleaving of parses in any number of threads, any history of earlier parses.",
  "Histories and schedules: every test parses once in one thread.",
  S("lib.rs", "parser.rs", "terminals.rs"), [("no statics, no interior mutability, owned tree types", "whole crate")],
  observe=["equality of results"])
p("C08", "Tree values compare and clone structurally",
  "Two tree values are equal exactly when they have the same shape and the same contents in every field, equality is reflexive for every tree the parser can produce, and a clone equals its original.",
  ["inputs"], "Every pair of trees, including numbers.", FEW + "tests compare only against equal trees, so an equality that ignores a field passes them.",
  S("expression/mod.rs", "literal.rs", "query/mod.rs", "update.rs", "graph.rs"),
  [("derived PartialEq/Eq/Clone on every tree type", "every #[derive] in src"), ("impl Eq for NumericLiteral", "src/literal.rs")])
p("C09", "No alternative of the grammar is dead",
  "Every choice the public result types offer for queries, updates, graph patterns, terms, paths, operators, built-ins and aggregates is produced by the parser for some text, and no alternative, optional part or mandatory white space in the grammar is unreachable because something before it always takes the text it needs.",
  ["inputs"], "Every alternative of every rule; existence of an accepting text.", "Inputs: most alternatives have no test at all.",
  S("update.rs", "call.rs", "operations.rs", "graph.rs", "arithmetic.rs", "expression/mod.rs", "query/select.rs", "parser.rs"),
  [("ordered alternatives", "every alt() in src"), ("statement dispatch", "src/update.rs update_stmt, src/call.rs built_in_call")])
p("C10", "IRI references take exactly the IRIREF characters",
  "An IRI reference is '<', any number of characters other than control characters, space and <>\"{}|^`\\, and '>'; its value is exactly the text between the angle brackets, for all Unicode characters.",
  ["inputs"], "All Unicode scalar values at every position of the reference.", FEW + "all ASCII, while the rule must hold for 1.1 million characters.",
  S("terminals.rs"), [("iri_ref", "src/terminals.rs")], observe=["Iri::Iri payload"])
p("C11", "Prefixed names and blank node labels follow the SPARQL name grammar",
  "A prefixed name is an optional prefix, ':' and an optional local part with no white space inside, using exactly the SPARQL name characters (all Unicode ranges, digits, '.', '-', '%hh' and backslash escapes where allowed) and never ending in a '.'; prefix and local part are stored separately and verbatim. Blank node labels follow the same rules after '_:'.",
  ["inputs"], "All names over all Unicode scalar values.", FEW + "a handful of ASCII names.",
  S("terminals.rs", "graph.rs"), [("pn_local, pn_prefix, pn_chars_tail, pname_ns, pname_ln, prefixed_name, iri", "src/terminals.rs"), ("character classes", "src/terminals.rs is_unicode, is_pn_chars_base, is_pn_chars_u, is_pn_char"), ("blank_node", "src/graph.rs")],
  observe=["PrefixedName, BlankNode"])
p("C12", "Variables keep their sigil and their exact name",
  "A variable is '?' or '$' followed by the longest run of SPARQL variable-name characters, at least one; the tree records which sigil was written and exactly that name.",
  ["inputs"], "All names over all Unicode scalar values.", FEW + "two variables.",
  S("var.rs", "terminals.rs"), [("var, var_name", "src/var.rs")], observe=["Var"])
p("C13", "Quoted literals end at their own quote and keep tag or datatype",
  "A quoted literal, possibly empty, runs to the first unescaped occurrence of the quote that opened it and its text is stored verbatim; a directly following '@tag' is stored as its language and '^^iri' as its datatype, and a literal without them has neither.",
  ["inputs"], "All literal contents, escapes, tags and datatypes.", FEW + "no empty literal and no escape is tried.",
  S("terminals.rs", "node.rs", "literal.rs"), [("string_literal, rdf_literal, language_tag", "src/terminals.rs"), ("string_literal_arg", "src/literal.rs")],
  observe=["RdfLiteral"])
p("C14", "Numbers and booleans keep kind, sign, value and exponent",
  "A number without '.' and exponent that fits 64 bits yields an integer with its written sign and value, any other number yields its mantissa and, when an exponent is written, that signed exponent; 'true' and 'false' yield the boolean they name. No number loses its sign, its fraction or its exponent.",
  ["inputs"], "All numeric and boolean tokens.", FEW + "about ten numbers.",
  S("literal.rs", "arithmetic.rs"), [("sparql_int, sparql_decimal, sparql_double, exponent, numeric_literal, boolean", "src/literal.rs")],
  observe=["NumericLiteral, BooleanLiteral"])
p("C15", "White space and comments are interchangeable between tokens",
  "White space is any mix of space, tab, CR, LF and '#' comments running to the end of the line or of the text; wherever white space is allowed any amount of any of these is, and wherever two adjacent tokens need a separator at least one is required.",
  ["inputs"], "All white-space and comment sequences at all token boundaries.", FEW + "a few spaces and one newline.",
  S("terminals.rs", "clauses.rs", "expression/mod.rs"), [("sp, sp1, new_line, sp_enc, sp_enc1, sp_sep, sp_sep1, bracketted, preceded_tag, preceded_tag1", "src/terminals.rs")])
p("C16", "Keywords match in any letter case and only as ASCII letters",
  "Every SPARQL keyword and built-in name matches regardless of the case of its ASCII letters and matches nothing else; a non-ASCII character never stands for a keyword letter. The predicate 'a' alone is case-sensitive, as SPARQL has it.",
  ["inputs"], "All case variants of all keywords, and all Unicode look-alikes.", FEW + "one spelling per keyword.",
  S("terminals.rs", "clauses.rs", "call.rs", "aggregate.rs", "operations.rs", "graph.rs", "arithmetic.rs", "literal.rs"),
  [("tag_no_case, preceded_tag, preceded_tag1", "src/terminals.rs")])
p("C17", "The prologue keeps every BASE and PREFIX declaration in order",
  "A prologue is any sequence of BASE and PREFIX declarations; the tree lists every one of them, in written order, with its kind, its prefix (none for the empty prefix) and its IRI.",
  ["inputs"], "All declaration sequences.", FEW + "one three-line prologue.",
  S("terminals.rs", "prologue.rs", "parser.rs"), [("prologue, base_decl, prefix_decl", "src/terminals.rs")], observe=["Prologue"])
p("C18", "Each query form yields its own node with every clause in its field",
  "SELECT, CONSTRUCT, DESCRIBE and ASK texts each yield the node of that form, and every clause written - projection, template, targets, dataset, WHERE, solution modifiers, trailing VALUES - is stored in the field of that name, absent clauses being recorded as absent.",
  ["inputs"], "All queries of all four forms.", "Inputs: no test parses a whole query of any form.",
  S("parser.rs", "query/mod.rs", "query/select.rs", "query/construct.rs", "query/describe.rs", "query/ask.rs", "clauses.rs"),
  [("sparql_query_stmt, sparql_query", "src/parser.rs"), ("select_query, construct_query, describe_query, ask_query", "src/query")], observe=["SparqlQueryStatement, SparqlQuery"])
p("C19", "The SELECT clause keeps its modifier and its projection list in order",
  "SELECT records DISTINCT or REDUCED exactly when written, and either '*' or every projected variable and '(expression AS variable)' in written order, each with its own expression and variable; a sub-select has the same clause plus WHERE, solution modifiers and optional VALUES.",
  ["inputs"], "All SELECT clauses.", "Inputs: no test exercises a SELECT clause.",
  S("query/select.rs", "var.rs", "expression/mod.rs"), [("select_clause, select_vars, select_modifier, sub_select", "src/query/select.rs"), ("var_or_expression_as_var", "src/var.rs"), ("expression_as_var", "src/expression/mod.rs")])
p("C20", "Dataset and USING clauses tell default graphs from named ones",
  "Every FROM and USING clause is kept in written order, as a named graph exactly when NAMED is written and as a default graph otherwise, with the IRI written.",
  ["inputs"], "All dataset and using clause sequences.", FEW + "never more than one clause.",
  S("data.rs", "clauses.rs", "terminals.rs"), [("data_set_clause", "src/data.rs"), ("using_clause", "src/clauses.rs"), ("default_or_named_iri, named_iri", "src/terminals.rs")])
p("C21", "Solution modifiers keep kind, order, direction and numbers",
  "GROUP BY, HAVING, ORDER BY and LIMIT/OFFSET are each optional, appear in that order and are stored in their own fields with their conditions in written order; ASC and DESC are kept as written, a grouping alias stays with its expression, and the LIMIT and OFFSET numbers are never swapped whichever comes first.",
  ["inputs"], "All solution modifiers.", FEW + "only LIMIT and OFFSET are tested.",
  S("clauses.rs", "group.rs", "order.rs", "expression/mod.rs"), [("solution_modifier, limit_offset_clause, int_clause, having_clause, order_clause", "src/clauses.rs"), ("group_clause, group_condition", "src/group.rs"), ("order_condition, order_expression", "src/order.rs")])
p("C22", "VALUES blocks keep variables, rows and cells in order",
  "An inline data block records its variable or variables and every row and cell in written order with its kind - IRI, RDF literal, number, boolean or UNDEF - and nothing is added, dropped or merged.",
  ["inputs"], "All data blocks.", FEW + "two rows at most.",
  S("data.rs", "clauses.rs"), [("datablock, inline_data_one_var, inline_data_full, datablock_value, inline_data", "src/data.rs"), ("values_clause", "src/clauses.rs")])
p("C23", "Group graph patterns keep each member's kind and the written order",
  "A group is either a sub-select or a sequence of triples blocks and OPTIONAL, UNION, MINUS, GRAPH, SERVICE, FILTER, BIND and VALUES members; each becomes the node of that kind with its own variable or IRI, SILENT flag and nested group, all UNION branches are kept, and members and triples stay in written order.",
  ["inputs"], "All group graph patterns, at all nesting depths.", "Inputs: no test parses a group graph pattern.",
  S("graph.rs", "expression/functions.rs", "expression/mod.rs"), [("group_graph_pattern, group_graph_pattern_sub, group_graph_pattern_and_triples, graph_pattern_not_triples and the rules it dispatches to", "src/graph.rs")])
p("C24", "Triples keep subject, predicate and object in place and in order",
  "In templates, patterns and nested nodes every subject keeps all its predicates and every predicate all its objects, in written order: ';' starts another predicate, ',' another object, '.' another subject; terms keep their kind, collections and bracketed property lists keep their members, and 'a' is distinguished from an IRI.",
  ["inputs"], "All triples syntax.", FEW + "short lists of trivial terms.",
  S("triple.rs", "graph.rs", "var.rs", "path.rs"), [("triples_same_subject, property_list_not_empty, object_list, collection, blank_node_property_list, triples_template, triples_block", "src/triple.rs"), ("graph_term, graph_node, blank_node", "src/graph.rs"), ("verb, var_or_term, var_or_iri", "src/var.rs")])
p("C25", "Property paths keep operator, operand order and precedence",
  "'|' separates alternatives, '/' the steps of a sequence and binds tighter, '^' inverts one step, '?', '*' and '+' modify the primary they follow, '!' negates a property set and parentheses group; every operand is kept in written order, and triples with paths keep subjects, paths and objects in place with ';' and ',' lists.",
  ["inputs"], "All property paths and path triples.", FEW + "only the three modifier characters.",
  S("path.rs", "expression/iri.rs"), [("path_alternative, path_sequence, path_elt_or_inverse, path_elt, path_primary, path_negated_property_set, path_mod", "src/path.rs"), ("triples_same_subject_path, property_list_path_not_empty, object_list_path", "src/path.rs"), ("iri_or_a_or_caret", "src/expression/iri.rs")])
p("C26", "Expression operators keep meaning, precedence and operand order",
  "'||' binds weakest, then '&&', then one comparison (=, !=, <, >, <=, >=, IN, NOT IN), then + and -, then * and /, then the prefixes !, + and -, then primaries; each operator yields the node of its own meaning with its operands in written order, and a signed number directly after an operand is that operand's addend.",
  ["inputs"], "All expressions.", "Inputs: the expression tests are empty.",
  S("arithmetic.rs", "expression/mod.rs"), [("expression, conditional_and_expression, relational_expression, op_expression, additive_expression, add_expression, multiplicative_expression, mult_expression, unary_expression", "src/arithmetic.rs, src/expression/mod.rs"), ("primary_expression", "src/expression/mod.rs")])
p("C27", "Each built-in function name yields its own node with its own arguments",
  "Every built-in name yields the node of that function and no other, takes exactly the number of arguments SPARQL gives it, separated by commas, and stores them in written order; an optional argument is recorded as absent when not written.",
  ["inputs"], "All 50-odd built-ins and all argument lists.", "Inputs: no built-in has a test.",
  S("call.rs", "expression/functions.rs", "expression/mod.rs"), [("built_in_call, built_in_call_1, built_in_call_2", "src/call.rs"), ("regex_expression, substring_expression, str_replace_expression", "src/expression/functions.rs")])
p("C28", "Aggregates keep function, DISTINCT, operand and separator",
  "COUNT, SUM, MIN, MAX, AVG, SAMPLE and GROUP_CONCAT each yield their own node, are DISTINCT exactly when written, keep '*' apart from an expression in COUNT and keep GROUP_CONCAT's separator exactly when given; asking any aggregate whether it is distinct answers what was written.",
  ["inputs"], "All aggregate calls.", "Inputs: the aggregate module has no test.",
  S("aggregate.rs", "expression/mod.rs", "literal.rs"), [("aggregate, count, count_target, group_concat, Aggregate::is_distinct", "src/aggregate.rs"), ("distinct_expression", "src/expression/mod.rs"), ("distinct", "src/literal.rs")])
p("C29", "Function calls, argument lists and constraints keep IRI, flag and arguments",
  "A call by IRI keeps the IRI, whether DISTINCT was written, and all its arguments in written order, an empty list being told apart from no list; FILTER and HAVING constraints are a bracketed expression, a built-in call or a call by IRI and are kept as such, and BIND keeps its expression and its variable.",
  ["inputs"], "All calls, argument lists, filters and binds.", "Inputs: the only test of this area has an empty body.",
  S("call.rs", "expression/mod.rs", "expression/functions.rs", "terminals.rs"), [("function_call, arg_list", "src/call.rs"), ("iri_or_fun", "src/terminals.rs"), ("constraint, filter", "src/expression/functions.rs"), ("expression_list, bind, bracketted_expression", "src/expression/mod.rs")])
p("C30", "Graph management updates keep operation, SILENT and their graphs",
  "LOAD, CLEAR, DROP, CREATE, ADD, MOVE and COPY each yield the operation of that name, are silent exactly when SILENT is written, keep source and destination apart and in order, and keep the target as the graph, DEFAULT, NAMED or ALL that was written; LOAD keeps its INTO graph exactly when given.",
  ["inputs"], "All graph management operations.", FEW + "only CREATE and DROP are tested.",
  S("operations.rs", "update.rs", "graph.rs", "literal.rs"), [("load_stmt, clear_stmt, drop_stmt, create_stmt, add_stmt, move_stmt, copy_stmt, silent_from_to, silent_graph_ref_all", "src/operations.rs"), ("update_stmt", "src/update.rs"), ("graph_ref, graph_or_default, graph_ref_all", "src/graph.rs"), ("silent", "src/literal.rs")])
p("C31", "Data updates keep operation, quads and the sequence of operations",
  "INSERT DATA, DELETE DATA, DELETE WHERE and DELETE/INSERT ... WHERE each yield their own operation; WITH graph, delete template, insert template, USING clauses and WHERE group are stored in their own fields, quads keep every triple under its own graph in written order, and ';'-separated operations are all kept in order, each with its own prologue.",
  ["inputs"], "All update requests.", "Inputs: no update request is parsed by any test; only single quad blocks are.",
  S("update.rs", "operations.rs", "quads.rs", "clauses.rs"), [("update, update_stmt", "src/update.rs"), ("modify_stmt, delete_insert, insert_data, delete_data, delete_where_data", "src/operations.rs"), ("quads_pattern, quads, quads_entry, quads_not_triples", "src/quads.rs"), ("insert_clause, delete_clause", "src/clauses.rs")])
p("C32", "String argument compatibility follows the SPARQL table",
  "Two string arguments are compatible exactly when both are simple or xsd:string literals, or both carry the same language tag, or the first carries a language tag and the second is a simple or xsd:string literal; a literal written with ^^xsd:string is recognised as such.",
  ["inputs"], "All pairs of string literals.", "Inputs: the compatibility function has no test.",
  S("literal.rs"), [("StringLiteral::compatible_arg, string_literal_arg", "src/literal.rs")])
p("C33", "Signs and path modifiers convert to and from text consistently",
  "Converting a sign to text and back yields the same sign, '+' and the empty text are the positive sign and '-' the negative one; '?', '*' and '+' convert to their own path modifier and any other text is refused.",
  ["inputs"], "All texts and all values.", FEW + "only path modifiers are tested, one character at a time.",
  S("arithmetic.rs", "path.rs", "literal.rs"), [("Sign: FromStr, AsRef, Display, Default", "src/arithmetic.rs"), ("PathMod: FromStr", "src/path.rs"), ("sign", "src/literal.rs")])
p("C34", "Nesting depth is bounded before the stack overflows",
  "Arbitrarily deep nesting of parentheses, groups, collections or function arguments is answered with a parse error, and never exhausts the stack.",
  ["inputs"], "All nesting depths.", FEW + "nesting of depth two at most.",
  S("expression/mod.rs", "graph.rs", "triple.rs", "path.rs", "update.rs"), [("recursive descent without a depth limit", "expression, group_graph_pattern, collection, path_primary, update")])
p("C35", "Every valid SPARQL 1.1 query and update is accepted",
  "Every text that the SPARQL 1.1 grammar accepts is accepted, with an empty remainder.",
  ["inputs"], "All texts of the SPARQL 1.1 language.", FEW + "the language is infinite and the parser is work in progress.",
  S("parser.rs", "update.rs"), [("all rules", "src")])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
