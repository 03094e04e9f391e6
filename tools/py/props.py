"""Which obligations (by tag), which toggles and which battery area decide each property."""
CFG0 = dict(ON_CTX=False, ON_ASI=False, ON_EARLY=False, ON_STRICT=False, ON_COMMENTS=False, ON_POS=False, ON_TARGET=False, ON_G=False)
STRUCT = ['wf', 'frame', 'next', 'same']
G_EXPR = '''
is_ident is_pattern_expr is_assignment_expr is_arrow_param_placeholder reinterpret_expr_as_pat
reinterpret_as_cover_formals_list is_async is_simple is_restricted_param assignment_operator unary_operator binary_operator
logical_operator determine_precedence bin_precedence at_assign at_unary_operator is_start_of_expr
at_possible_ident expect_comma_sep parse_ident_name at_import_call at_async_function parse_super
parse_expression parse_template_element parse_template_literal parse_primary_expression parse_group_expr
parse_array_init parse_spread_element parse_args parse_async_args parse_async_arg parse_new_expr
parse_left_hand_side_expr parse_left_hand_side_expr_allow_call parse_update_expr parse_unary_expression
parse_await_expr parse_exponentiation_expression parse_binary_expression parse_conditional_expr
parse_yield_expr parse_assignment_expr
'''.split()
G_PAT = '''
parse_var_ident parse_rest_element parse_binding_rest_el parse_pattern_with_default parse_pattern
parse_array_pattern parse_object_pattern parse_rest_prop parse_property_pattern parse_object_property_key
is_valid_property_key_literal parse_formal_param parse_formal_params
'''.split()
G_DEF = '''
parse_function_expr parse_function_decl parse_fn_name parse_function_source_el parse_property_method_body
parse_method_body parse_property_method parse_async_property_method parse_generator_method parse_getter_method
parse_setter_method parse_obj_prop parse_obj_init parse_class_decl parse_class_body parse_class_el
parse_directive parse_directive_prologues at_qualified_prop_key qualified_prop_name is_static is_key
is_prop_name is_proto_ is_generator is_rest parse_object_property_key
'''.split()
G_STMT = '''
consume_semicolon at_lexical_decl at_import_call at_return_arg is_pat_ident is_restricted
parse_statement_list_item parse_statement parse_with_stmt parse_while_stmt parse_do_while_stmt parse_if_stmt
parse_if_clause parse_return_stmt parse_throw_stmt parse_try_stmt parse_for_stmt parse_fn_stmt parse_var_stmt
parse_lexical_decl parse_var_decl_list parse_variable_decl_list parse_binding_list parse_var_decl
parse_variable_decl parse_lexical_binding parse_finally_clause parse_catch_clause parse_block
parse_switch_stmt parse_switch_case parse_expression_statement parse_break_stmt parse_continue_stmt
parse_optionally_labeled_statement parse_debugger_stmt parse_labelled_statement parse_loop_body
parse_for_loop_cont parse_for_loop parse_for_in_loop parse_for_of_loop parse_for_stmt_rest
'''.split()
G_MOD = '''
parse_import_decl parse_named_imports parse_import_specifier parse_import_namespace_specifier
parse_import_default_specifier parse_module_specifier parse_export_decl parse_export_specifier
'''.split()
ALLG = ['g_expr', 'g_pat', 'g_def', 'g_stmt', 'g_mod', 'g_prog', 'asi', 'early', 'strict', 'target', 'ctx', 'val', 'other']
G_FOR = [f for f in G_STMT if f.startswith('parse_for_')]
G_PROG = ['parse', 'next_part', 'Iterator::next', 'new', 'build', '_new', 'Builder::with_comment_handler', 'Builder::build']


def toggled(*on, base=()):
    """the whole grammar with the toggles of one property; what fails as well under `base` alone is not its failure"""
    out = []
    for name, only, bc in [('expressions', G_EXPR, []), ('patterns and definitions', G_PAT + G_DEF, ['g2']),
                           ('statements', [f for f in G_STMT if f not in G_FOR], ['g2', 'g3']), ('for statements, modules, programs', G_FOR + G_MOD + G_PROG, ['g2', 'g3'])]:
        cfg = dict(ON_G=True, _bc=bc + ['g4'] * ('ON_TARGET' in on))
        b = dict(ON_G=True, _bc=bc + ['g4'] * ('ON_TARGET' in base))
        cfg.update({t: True for t in on})
        b.update({t: True for t in base})
        out.append(dict(name='%s with %s' % (name, '+'.join(on)), cfg=cfg, base_cfg=b, only=only, tags=ALLG))
    return out


PROPS = {
    'C01': dict(area='expr', tags=['g_expr'], level='proof', note='Proved for all inputs: whenever one of the 44 expression functions returns a tree, the consumed tokens derive exactly that tree (rules1_expr.rs), with functions, classes, object literals, bodies and rest patterns as parameters whose contracts the runs of C03 and C04 concern. That every well-formed expression is accepted is only exercised by the bounded battery, which is not counted as proved.', runs=[dict(name='expression grammar', cfg=dict(ON_G=True), only=G_EXPR, tags=['g_expr', 'other'])]),
    'C02': dict(area='stmt', tags=['g_stmt'], level='proof', note='Proved for all inputs: whenever one of the 43 statement functions returns a statement, the consumed tokens (automatic semicolons included) derive exactly that statement (rules3_stmt.rs), with expressions, patterns, functions and classes as parameters whose contracts the runs of C01, C04 and C03 concern. That every well-formed statement is accepted is only exercised by the bounded battery, which is not counted as proved.', runs=[dict(name='grammar of statements', cfg=dict(ON_G=True, _bc=['g2', 'g3']), only=G_STMT, tags=['g_stmt', 'asi', 'other'])]),
    'C03': dict(area='def', tags=['g_def'], level='proof', note='Proved for all inputs: whenever one of the function, class, method, object literal and parameter list functions returns a tree, the consumed tokens derive exactly that tree (rules2_defs.rs), with expressions, patterns and statements as parameters whose contracts the runs of C01, C04 and C02 concern. That every well-formed definition is accepted is only exercised by the bounded battery, which is not counted as proved.', runs=[dict(name='grammar of definitions', cfg=dict(ON_G=True, _bc=['g2']), only=G_DEF, tags=['g_def', 'other'])]),
    'C04': dict(area='pat', tags=['g_pat'], level='proof', note='Proved for all inputs: whenever one of the pattern functions returns a pattern, the consumed tokens derive exactly that pattern (rules2_defs.rs). Patterns that begin as expressions (assignment targets, arrow parameters) and the acceptance of every well-formed pattern are only exercised by the bounded battery, which is not counted as proved.', runs=[dict(name='grammar of patterns', cfg=dict(ON_G=True, _bc=['g2']), only=G_PAT, tags=['g_pat', 'g_def', 'other'])]),
    'C05': dict(area='module', tags=['g_mod'], level='proof', note='Proved for all inputs: whenever one of the 8 import and export functions returns a declaration, the consumed tokens derive exactly that declaration (rules3_stmt.rs), with expressions, functions, classes and variable declarations as parameters whose contracts other runs concern. That every well-formed import or export is accepted is only exercised by the bounded battery, which is not counted as proved.', runs=[dict(name='grammar of imports and exports', cfg=dict(ON_G=True, _bc=['g2', 'g3']), only=G_MOD, tags=['g_mod', 'other'])]),
    'C06': dict(area='asi', tags=['asi'], level='proof', note='Proved for all inputs: a tree is returned only when every statement end, restricted production (break, continue, return, throw, yield, postfix ++ and --, async function, directive) is consumed as automatic semicolon insertion allows, line breaks being those of the scanned text. The functions are proved against the whole grammar with the clauses of this property switched on; an obligation that fails without them as well is left to the property it belongs to. That nothing permitted is rejected is only exercised by the bounded battery, which is not counted as proved.', runs=toggled('ON_ASI')),
    'C07': dict(area='early', tags=['early'], level='proof', note='Proved for all inputs: a tree is returned only when the text meets the early errors named (labels in scope and not repeated, break and continue, return, one default, one constructor, one __proto__, try with a handler, initialisers of const and patterns). The functions are proved against the whole grammar with the clauses of this property switched on; an obligation that fails without them as well is left to the property it belongs to. That nothing permitted is rejected is only exercised by the bounded battery, which is not counted as proved.', runs=toggled('ON_EARLY')),
    'C08': dict(area='strict', tags=['strict'], level='proof', note='Proved for all inputs: strictness is inherited and switched on by directives and classes as specified, and no tree is returned for the forms forbidden in strict code. The functions are proved against the whole grammar with the clauses of this property switched on; an obligation that fails without them as well is left to the property it belongs to. That nothing permitted is rejected is only exercised by the bounded battery, which is not counted as proved.', runs=toggled('ON_STRICT', 'ON_TARGET', base=('ON_TARGET',))),
    'C09': dict(area='target', tags=['target'], level='proof', note='Proved for all inputs: a tree is returned only when the left side of every assignment, the operand of every update operator and the head of every for-in and for-of derive an assignment target (rules4_target.rs), and the parameters of every arrow function a list of bindings; the cover flags are related to the tree read so far by the contract of every function that reads or passes them. The functions are proved against the whole grammar with the clauses of this property switched on; an obligation that fails without them as well is left to the property it belongs to. That nothing permitted is rejected is only exercised by the bounded battery, which is not counted as proved.', runs=toggled('ON_TARGET')),
    'C10': dict(area='context', tags=['ctx'], level='proof', note='Proved for all inputs: every function receives and restores the await, yield, in, module and function context its production prescribes, and no tree is returned for a form the context forbids. The functions are proved against the whole grammar with the clauses of this property switched on; an obligation that fails without them as well is left to the property it belongs to. That nothing permitted is rejected is only exercised by the bounded battery, which is not counted as proved.', runs=toggled('ON_CTX', 'ON_STRICT', base=('ON_STRICT',))),
    'C11': dict(area='comments', tags=['comments'], level='proof', note='Proved for all inputs: at every point of the parser the handler has received exactly the comments among the tokens scanned so far, in order, each with its text, kind and span, and after a successful parse those of the whole source (the log of the handler is part of the parser invariant, spec/rules0_state.rs); the look-ahead functions restore the scanner and hand nothing over. What a comment token is (ress) and the blanket handler for closures (src/comment_handler.rs, one line) are assumed and exercised by the bounded battery, which is not counted as proved.', runs=[dict(name='every function with ON_COMMENTS', cfg=dict(ON_COMMENTS=True), base_cfg={}, only=None, tags=STRUCT + ['comments', 'val', 'other'])]),
    'C12': dict(area='positions', tags=['pos'], level='proof', note='Proved for all inputs: get_lines builds the line table the text has, get_item_position finds the line and column of a token in it, the two positions kept are those of the next and of the last consumed token, and every error that any function returns carries no position or that of a token read by then (expect_punct and expect_keyword: of the token found). Byte offsets of tokens are those of ress; UTF-8 arithmetic of the standard library (chars, len_utf8, slicing) is assumed.', runs=[dict(name='every function with ON_POS', cfg=dict(ON_POS=True, _bc=['pl']), base_cfg={}, only=None, tags=STRUCT + ['pos', 'val', 'other'])]),
    'C13': dict(area='progress', tags=['progress'], level='proof'),
    'C14': dict(area='panic', tags=['panic', 'lit'], level='proof'),
    'C15': dict(area='look', tags=STRUCT, level='proof'),
    'C16': dict(area='program', tags=['val'], level='proof', runs=[dict(name='program grammar', cfg=dict(ON_G=True, _bc=['g2', 'g3']), only=['parse', 'next_part', 'Iterator::next', 'new', 'build', '_new', 'Builder::with_comment_handler', 'Builder::build'], tags=['g_prog', 'val', 'other'])]),
}
