#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
F = ['src/lib.rs']


def P(id, title, st, q, why, mech, over=('inputs',), state=(), observe=()):
    return dict(id=id, title=title, statement=st, quantifier=dict(over=list(over), text=q), why_tests_cant=why,
                anchors=dict(files=F, state=[dict(name=a, meaning=b, where='src/lib.rs') for a, b in state],
                             mechanism=[dict(name=a, where='src/lib.rs: ' + b) for a, b in mech], observe_at=list(observe) or ['the Program returned by Parser::parse, the parts yielded by the Parser iterator'], hook_needed=None))


PS = [
 P('C01', 'Expressions parse to the tree the grammar assigns',
   'Every well-formed expression is parsed to exactly the tree that the ECMAScript expression grammar assigns to its tokens: operators group by precedence and associativity, operands, arguments, elements and template pieces keep their source order, and each node carries the operator, name, literal text and flags written in the source. '
   'No token of the expression is dropped, duplicated or attributed to another node.',
   'every token sequence that forms an expression, at any nesting depth',
   'The tests parse a few library files and compare some fifty hand-written trees; operator pairs, nesting and unusual operands are unbounded.',
   [('operator precedence stack', 'parse_binary_expression, determine_precedence, sort_exprs'), ('member/call chain', 'parse_left_hand_side_expr_allow_call, parse_left_hand_side_expr'),
    ('primary dispatch', 'parse_primary_expression'), ('literals and containers', 'parse_array_init, parse_obj_init, parse_template_literal, parse_args'), ('arrow functions', 'parse_group_expr, parse_assignment_expr')]),
 P('C02', 'Statements parse to the tree the grammar assigns',
   'Every well-formed statement is parsed to the node of its kind with its own parts in the right fields: tests, bodies, alternates, cases, labels, handlers and loop heads are those written in the source, in source order. '
   'A nested statement belongs to the innermost construct that can own it.',
   'every token sequence that forms a statement or statement list',
   'The tests cover one or two instances of each statement form; combinations and nestings are unbounded.',
   [('statement dispatch', 'parse_statement, parse_statement_list_item'), ('loops', 'parse_for_stmt, parse_for_stmt_rest, parse_while_stmt, parse_do_while_stmt'), ('switch and try', 'parse_switch_stmt, parse_switch_case, parse_try_stmt'), ('labels', 'parse_labelled_statement')]),
 P('C03', 'Functions and classes keep their parts and flags',
   'Every well-formed function, method, accessor, arrow function and class is parsed to a definition with its own name, parameters in order, defaults, body and superclass, and with generator, async, computed, shorthand, accessor and constructor flags exactly as written. '
   'Directives at the start of a body are told apart from other string expressions.',
   'every definition form with any parameter list, body and nesting',
   'The flag combinations, key forms and nestings are unbounded; the tests sample some of them.',
   [('functions', 'parse_function_decl, parse_function_expr, parse_function_source_el, parse_formal_params'), ('classes', 'parse_class_decl, parse_class_body, parse_class_el'), ('object members', 'parse_obj_prop, parse_property_method, parse_getter_method, parse_setter_method, parse_async_property_method'), ('directives', 'parse_directive, parse_directive_prologues')]),
 P('C04', 'Destructuring patterns keep names, defaults and rest',
   'Every well-formed binding or assignment pattern is parsed to a pattern with the same elements in the same places: holes, keys, targets, defaults and the rest element are those written in the source. '
   'An expression that is reinterpreted as a pattern or parameter list keeps every part of it.',
   'every pattern at any nesting depth, in declarations, parameters, catch clauses and assignments',
   'Patterns nest without bound and reach the parser by several routes; the tests hold a handful.',
   [('binding patterns', 'parse_pattern, parse_array_pattern, parse_object_pattern, parse_property_pattern, parse_pattern_with_default'), ('reinterpretation', 'reinterpret_expr_as_pat, reinterpret_as_cover_formals_list')]),
 P('C05', 'Imports and exports keep every specifier',
   'Every well-formed import or export is parsed to a declaration of its kind whose default, namespace and named specifiers, local and external names, source and exported declaration are those written in the source, in order.',
   'every module item, with any number of specifiers',
   'Specifier lists are unbounded and the name pairs are symmetrical, so an exchange goes unnoticed in small samples.',
   [('imports', 'parse_import_decl, parse_named_imports, parse_import_specifier'), ('exports', 'parse_export_decl, parse_export_specifier, parse_module_specifier')], over=('programs',)),
 P('C06', 'Semicolons are inserted exactly where the grammar allows',
   'A statement that needs a semicolon and has none is accepted only when the next token is a closing brace, the end of input, or on a later line; otherwise it is rejected. '
   'Where the grammar forbids a line break (after throw, before a postfix ++ or --, before the label of break and continue, before the value of return and before an arrow) the break is honoured: the statement ends there or is rejected.',
   'every statement form, every following token and every placement of line terminators and comments',
   'The outcome depends on the pairing of each statement form with each next token and each kind of line break, including breaks inside comments.',
   [('semicolon insertion', 'consume_semicolon'), ('line terminator flag', 'next_item'), ('restricted productions', 'parse_return_stmt, parse_throw_stmt, parse_break_stmt, parse_continue_stmt, parse_update_expr, parse_primary_expression')], state=[('has_line_term', 'a line terminator precedes the next token')]),
 P('C07', 'Structural early errors are reported',
   'A program is rejected when it holds: two __proto__ data properties in one object literal; a getter with parameters or a setter without exactly one; two constructors in a class, or a constructor that is a generator, accessor or async; return outside a function; break or continue with no enclosing target or with a label that is not in scope there; a label declared again inside itself; more than one default in a switch; a const or destructuring declaration without initialiser outside for-in and for-of; a try without catch and finally.',
   'every program that holds such a construct anywhere, at any nesting',
   'Each rule must hold in every surrounding construct, and the scope of labels and targets depends on the path of functions, loops and switches around it.',
   [('label and target scopes', 'parse_break_stmt, parse_continue_stmt, parse_labelled_statement, parse_function_source_el, parse_loop_body'), ('object and class members', 'parse_obj_prop, parse_getter_method, parse_setter_method, parse_class_el'), ('declarations', 'parse_variable_decl, parse_lexical_binding, parse_switch_stmt, parse_try_stmt, parse_return_stmt')], over=('programs',), state=[('label_set', 'labels in scope'), ('in_iteration / in_switch / in_function_body', 'enclosing constructs')]),
 P('C08', 'Strict code is recognised and its restrictions enforced',
   'Code is strict exactly in modules, class bodies and the extent of a use-strict directive (a whole script or one function), and a function with such a directive and non-simple parameters is rejected. '
   'In strict code a with statement, delete of a plain name, eval or arguments as an assignment or update target or as the name of a declared variable, parameter, function, class or catch binding, and a strict reserved word as a name are rejected; in sloppy code they are not.',
   'every program, with directives at any nesting depth',
   'Strictness is inherited, entered late (after the parameters were read) and must be left again on every path.',
   [('strict flag', 'parse_directive, parse_function_source_el, parse_property_method_body, parse_class_decl'), ('restricted names', 'is_restricted, is_restricted_word, parse_var_ident, parse_primary_expression, parse_formal_param'), ('with and delete', 'parse_with_stmt, parse_unary_expression')], over=('programs',), state=[('context.strict', 'the code being read is strict')]),
 P('C09', 'Only assignable expressions are assigned to',
   'An assignment, an update operator or a for-in/for-of head is accepted only if its target is a name, a member access or (for plain assignment and loop heads) a pattern all of whose targets are themselves assignable. '
   'Calls, literals, operators, arrow functions and parenthesised patterns are rejected as targets wherever they stand. '
   'The parameters of an arrow function are accepted only if each is a name or a pattern of names, possibly with a default, or a rest parameter in the last place.',
   'every expression in target position, at any depth of parentheses and patterns',
   'Whether an expression may be a target is tracked by flags that every sub-expression parser updates; a leak shows only for particular nestings.',
   [('assignability flag', 'isolate_cover_grammar, inherit_cover_grammar and the parse_*_expr functions'), ('checks', 'parse_assignment_expr, parse_update_expr, parse_for_stmt_rest, reinterpret_expr_as_pat')], state=[('context.is_assignment_target / is_binding_element', 'the expression just read may be assigned to')]),
 P('C10', 'Context restrictions apply in their scope and nowhere else',
   'The meaning of await, yield, in, new.target and for-await depends only on the constructs around them: await and yield are operators exactly inside async and generator functions, the in operator is withheld only in the head of a for statement outside brackets, and new.target needs a surrounding function. '
   'Leaving a construct restores the enclosing context, whatever it contained.',
   'every nesting of functions, loops, classes, patterns and brackets',
   'Context flags are saved and restored by hand in many functions; a missing restore shows only after a particular nesting.',
   [('save and restore', 'parse_function_decl, parse_function_expr, parse_property_method, parse_generator_method, parse_async_property_method, parse_assignment_expr, parse_for_stmt_rest, parse_primary_expression')], over=('programs',), state=[('context', 'allow_in, allow_yield, await, in_function_body, strict')]),
 P('C11', 'Each comment reaches the handler once, in order',
   'When a program is read to its end with a comment handler, the handler receives every comment of the source exactly once, in source order, with its own text, kind and span. '
   'Look-ahead and re-scanning deliver no comment twice and skip none.',
   'every source text and every placement of comments',
   'Comments may stand between any two tokens, and look-ahead at a few places scans ahead and rewinds.',
   [('delivery', 'next_item'), ('look-ahead', 'at_async_function, at_import_call, at_lexical_decl')], observe=['CommentHandler::handle_comment']),
 P('C12', 'Reported error positions are positions of tokens',
   'Every error with a position names the line (from 1) and column (bytes from the start of the line, from 0) at which a token of the source starts: a token read by then, such as the one found, the last one consumed or the one at which the offending construct begins. '
   'Lines end at LF, CR, CRLF, U+2028 and U+2029; the bytes of a multi-byte character all count in the column.',
   'every rejected source text, with any mix of line terminators and multi-byte characters',
   'The tests look at the position of few errors, all in ASCII text with LF.',
   [('line table', 'get_lines'), ('position of a token', 'get_item_position, update_positions'), ('error construction', 'expected_token_error, unexpected_token_error')], observe=['the Position in Error'], state=[('look_ahead_position', 'line and column of the next token')]),
 P('C13', 'Parsing always ends',
   'Parsing any source text ends: every parse step either consumes a token or fails, so the number of steps is bounded by the number of tokens, and the iterator yields finitely many items. '
   'Once the iterator has reported the end it keeps reporting it.',
   'every source text, valid or not, in script, module and tolerant mode',
   'A loop that makes no progress shows only on the one malformed input that reaches it.',
   [('token consumption', 'next_item'), ('every loop and recursion of the parser', 'all parse_* functions')]),
 P('C14', 'No input makes the parser panic',
   'For any source text, parsing returns a program or an error: the parser itself never panics, whether by slicing, indexing, arithmetic, unwrapping or reaching code marked unreachable.',
   'every source text, valid or not, in script, module and tolerant mode',
   'A panic hides behind one odd token in one odd place; the tests parse valid programs.',
   [('slices of token text', 'parse_directive, parse_regex, parse_template_element, is_proto_key'), ('indexing', 'parse_binary_expression, sort_exprs, get_item_position')]),
 P('C15', 'Looking ahead never changes what is parsed',
   'The parser consumes the tokens of the source one by one in order: each token is the scanner\'s next one, none is skipped or read twice, and looking ahead leaves the token stream, line information and pending comments as they were. '
   'Words that are keywords only in some places (async, import, let) are therefore read the same whatever follows them.',
   'every source text and every place where the parser looks ahead',
   'The scanner keeps state beside its position, so a look-ahead that fails to restore it shows only after particular tokens.',
   [('look-ahead', 'at_async_function, at_import_call, at_lexical_decl'), ('advance', 'next_item')], state=[('scanner, look_ahead', 'the scanner is one token past look_ahead')]),
 P('C16', 'parse, the iterator and the builder agree',
   'A successful parse covers the whole source: the program holds the items of the source up to its end, each once and in order. '
   'Reading the same source through the iterator, through Parser::new, through the builder, or with a comment handler gives the same items, and the builder\'s settings are the ones the parser works with.',
   'every source text and every way to construct and drive a parser',
   'The tests drive the parser through one route per case and compare no two of them.',
   [('program loop', 'parse, next_part, Iterator::next'), ('construction', 'Builder::*, Parser::new, Parser::build, Parser::_new')], over=('inputs', 'configurations')),
]
NA = [
 (P('C17', 'Every valid ECMAScript program is accepted',
    'Every program that is valid in the supported version of ECMAScript is accepted.',
    'every valid program', 'The set of valid programs is unbounded.', [('all error exits', 'every parse_* function')], over=('programs',)),
  'Contracts of the parser functions say what an accepted result must be. That an error is returned only for invalid input would need, per error exit, a proof that no derivation of the remaining tokens exists, i.e. the negation of an existential over the whole grammar (an LL(1)-style completeness proof for a cover grammar with unbounded reinterpretation); no contract within reach expresses it function by function. Acceptance of generated valid programs is exercised by the bounded batteries of C01-C10 only.'),
 (P('C18', 'Tolerant mode only adds programs',
    'A program accepted in the default mode is accepted in tolerant mode with the same tree.',
    'every source text', 'Needs the comparison of two runs for every input.', [('tolerate_error', 'tolerate_error and the tests of config.tolerant')], over=('inputs', 'configurations')),
  'A relation between two runs of the whole parser (2-safety). Verus contracts speak of one run; a product construction over 175 mutually recursive functions is out of reach.'),
]
NOTE = {
 'proof': 'Verus discharges every obligation of the property on the extracted source for all inputs; trusted: extraction rules, the model of ress/resast/std in spec/prelude.rs and the functions listed as assumed in the evidence. A bounded battery on the real crate runs beside it and is not counted as proved.',
 'exploration': 'Bounded stand-in: generated programs on the real crate, seeded; nothing is proved for all inputs yet.',
}
checks = []
for p in PS:
    q = PROPS[p['id']]
    checks.append(dict(property=p['id'], quick_cmd='python3 tools/py/check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3 tools/py/check.py %s --thorough' % p['id'],
                       technique=q.get('technique', 'contract-based deductive verification (Verus contracts on extracted source) with a bounded battery beside it'),
                       level=q['level'], level_note=q.get('note') or NOTE[q['level']], evidence_file='evidence/%s.json' % p['id']))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=[dict(property=p['id'], reason=r) for p, r in NA],
         notes='No hooks: /repo carries only fix: commits. Known findings and repaired defects: known-findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
with open(V + '/properties.jsonl', 'w') as fh:
    for p in PS + [x for x, _ in NA]:
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps(p) + '\n')
