"""Which rules of the reference grammar each property is about."""

WS = "sp sp1 new_line kwsep"
PATHS = ("triples_same_subject_path property_list_path property_list_path_not_empty property_list_path_entry "
         "verb_path_or_simple object_list_path graph_node_path triples_node_path blank_node_property_list_path")

OWN = {
    "C10": "iri_ref iri",
    "C11": "pn_chars_base_one pn_chars_u_one pn_chars1 pn_chars_one pn_chars_tail hex_primary plx pn_local pn_prefix "
           "pname_ns pname_ln prefixed_name iri blank_node anon",
    "C12": "var_name var",
    "C13": "string_literal language_tag descriptor rdf_literal string_literal_arg",
    "C14": "boolean sign exponent recognize_spaqrql_float sparql_decimal sparql_double sparql_int numeric_literal",
    "C17": "prologue base_decl prefix_decl pname_ns sparql_query_stmt update",
    "C18": "sparql_query_stmt sparql_query select_query construct_query describe_query ask_query construct_template "
           "where_clause values_clause dataset_clauses solution_modifier var_or_iris_or_all triples_template "
           "sub_construct sub_triples select_clause data_set_clause",
    "C19": "select_clause select_modifier select_vars var_or_expression_as_var expression_as_var sub_select "
           "select_query",
    "C20": "data_set_clause default_or_named_iri named_iri using_clause dataset_clauses select_query construct_query "
           "sub_construct sub_triples describe_query ask_query modify_stmt",
    "C21": "solution_modifier group_clause group_condition having_clause order_clause order_condition "
           "order_expression order limit_clause offset_clause limit_offset_clause number expression_as_var_opt "
           "constraint",
    "C22": "values_clause inline_data datablock inline_data_one_var inline_data_full datablock_value "
           "sparql_query_stmt nil",
    "C23": "group_graph_pattern group_graph_pattern_sub group_graph_pattern_and_triples graph_pattern_not_triples "
           "group_or_union_graph_pattern optional_group_graph_pattern minus_graph_pattern graph_graph_pattern "
           "service_graph_pattern silent_flag silent filter bind inline_data sub_select triples_block var_or_iri",
    "C24": "triples_block triples_template triples_same_subject property_list property_list_not_empty object_list "
           "triples_node collection blank_node_property_list graph_node graph_term var_or_term verb iri_or_a "
           "var_or_iri nil blank_node anon quads_not_triples " + PATHS,
    "C25": "path_alternative path_sequence path_elt_or_inverse path_elt path_mod path_primary "
           "path_negated_property_set path_one_in_property_set iri_or_a_or_caret iri_or_a triples_block "
           "graph_node " + PATHS,
    "C26": "expression conditional_and_expression relational_expression op_expression additive_expression "
           "add_expression multiplicative_expression mult_expression unary_expression primary_expression "
           "bracketted_expression expression_list iri_or_fun numeric_literal sign",
    "C27": "built_in_call arg1 arg2 arg3 regex_expression substring_expression str_replace_expression "
           "expression_list bracketted_expr3 nil aggregate var distinct_expression",
    "C28": "aggregate count count_target group_concat distinct_expression distinct distinct_flag string_literal",
    "C29": "function_call arg_list expression_list iri_or_fun constraint filter bind having_clause "
           "expression_as_var bracketted_expression nil distinct_flag distinct expression",
    "C30": "load_stmt clear_stmt drop_stmt create_stmt add_stmt move_stmt copy_stmt silent_from_to "
           "silent_graph_ref_all graph_ref graph_or_default graph_ref_all silent_flag silent update_stmt",
    "C31": "update update_stmt insert_data delete_data delete_where_data modify_stmt delete_insert insert_clause "
           "delete_clause quads_pattern quad_data quads quads_entry quads_not_triples using_clause "
           "triples_template triples_same_subject prologue",
    "C32": "string_literal_arg string_literal language_tag",
    "C33": "sign path_mod",
    "C15": WS,
}
OWN = {k: v.split() for k, v in OWN.items()}


def owners(rule):
    return {p for p, rs in OWN.items() if rule in rs}


def unowned(rules):
    have = {r for rs in OWN.values() for r in rs}
    return [r for r in rules if r not in have]
