"""Grammar contracts (toggle ON_G): parse_x returns Ok(t) only for a derivation of t as an X."""
A = 'old(self).h(), old(self).cx(), old(self).pos()'
B = 'final(self).pos()'
TG = {}


def E(e, tag='g_expr'):
    return [(tag, e)]


def gx(rule, tag, val='r->Ok_0'):
    return [(tag, 'r is Ok ==> %s(%s, %s, %s)' % (rule, A, val, B))]


def rev(*names):
    return 'proof { ' + ' '.join('reveal(%s);' % n for n in names) + ' } '


def rule(key, r, tag, *names, val='r->Ok_0', **k):
    d = {'+ens': gx(r, tag, val)}
    if names:
        d['+pre'] = rev(*names)
    d.update(k)
    TG[key] = d


P0 = '*$P0'
for k, e in {
    'is_ident': 'r == (*$P0 is Ident)',
    'is_pattern_expr': 'r == (*$P0 is Array || *$P0 is Object)',
    'is_assignment_expr': 'r == (*$P0 is Assignment)',
    'is_arrow_param_placeholder': 'r == (*$P0 is ArrowParamPlaceHolder)',
    'is_async': '*$P0 is Ident || *$P0 is ArrowParamPlaceHolder ==> r == sp_async(*$P0)',
    'is_simple': 'r == simple_arg(*$P0)',
    'is_restricted_param': 'r == restr_p(*$P0)',
    'assignment_operator': 'r == asgop(Token::Punct(*$P0))',
    'unary_operator': 'r == unop(*$P0)',
    'binary_operator': 'r == binop(*$P0)',
    'logical_operator': 'r == logop(*$P0)',
    'determine_precedence': 'r == pprec(*$P0)',
    'bin_precedence': 'r == (if *$P0 == Token::Keyword(Keyword::In) && !self.context.allow_in { 0 } else { tkprec(*$P0) })',
    'at_assign': 'r == (asgop(tk(self.h(), self.pos())) is Some)',
    'at_unary_operator': 'r == (unop(tk(self.h(), self.pos())) is Some || self.context.r#await && kw(self.h(), self.pos(), Keyword::Await))',
    'is_start_of_expr': 'exprstart(tk(self.h(), self.pos())) ==> r',
    'at_possible_ident': 'r == idname(tk(self.h(), self.pos()))',
    'reinterpret_expr_as_pat': '$P0 matches Expr::Ident(i) ==> r is Ok && (r->Ok_0 matches Pat::Identifier(j) && j@ == i@)',
    'reinterpret_expr_as_pat ': '$P0 is Function ==> r is Err',
}.items():
    TG.setdefault(k.strip(), {'+ens': []})['+ens'] += E(e)
TG['at_import_call'] = {'+ens': E('r ==> kw(old(self).h(), old(self).pos(), Keyword::Import) && pu(old(self).h(), nx(old(self).h(), old(self).pos()), Punct::OpenParen)')}
TG['at_async_function'] = {'+ens': E('r ==> cw(old(self).h(), old(self).pos(), "async"@) && kw(old(self).h(), nx(old(self).h(), old(self).pos()), Keyword::Function)')}
TG['expect_comma_sep'] = {'+ens': E('r is Ok ==> pu(old(self).h(), old(self).pos(), Punct::Comma) && final(self).pos() == nx(old(self).h(), old(self).pos())')}
TG['parse_ident_name'] = {'+ens': E('r is Ok ==> r->Ok_0@ == txt(old(self).h(), old(self).pos()) && idname(tk(old(self).h(), old(self).pos())) && final(self).pos() == nx(old(self).h(), old(self).pos())')}
TG['reinterpret_as_cover_formals_list'] = {
    '+ens': E('r is Ok ==> match r->Ok_0 { Some(ps) => cover($P0, ps@), None => true }')
    + E('final(self).pos() == old(self).pos()'),
    'loops': {0: {'+inv': E('$IT.seq() == $SRC@') + E('$ACC@ =~= $IT.seq().take($IT.index@)'), 'post': 'assert($ACC@ =~= $SRC@);'}}}
MAPARG = {'+inv': E('$IT.seq() == $SRC@ && $ACC@.len() == $IT.index@') + E('forall|q: int| 0 <= q < $ACC@.len() ==> #[trigger] $ACC@[q] == FunctionArg::Expr($IT.seq()[q])'),
          'post': 'proof { reveal(eargs); assert(eargs($ACC@, $SRC@)); }'}
rule('parse_expression', 'R_Expr', 'g_expr', 'R_Expr', loops={0: {
    '+inv': E('L_Exprs(%s, $PUSH0@, self.pos())' % A) + E('$PUSH0@.len() >= 2 || $PUSH0@.len() == 1 && pu(self.h(), self.pos(), Punct::Comma)'),
    'ens': E('!pu(self.h(), self.pos(), Punct::Comma)')}})
rule('parse_template_element', 'R_TplEl', 'g_expr', 'R_TplEl')
TG['parse_template_element']['+ens'] = E('r is Ok ==> R_TplEl(old(self).h(), old(self).pos(), r->Ok_0, final(self).pos())')
rule('parse_template_literal', 'R_Tpl', 'g_expr', 'R_Tpl', loops={0: {'+inv': E('L_Tpl(%s, $PUSH1@, $PUSH0@, self.pos())' % A) + E('$ASG0 == $PUSH1@.last().tail && $PUSH1@.len() >= 1')}})
rule('parse_primary_expression', 'R_Prim', 'g_expr', 'R_Prim')
NXA = 'old(self).h(), old(self).cx(), nx(old(self).h(), old(self).pos())'
BIND = E('r is Ok && r->Ok_0 is Sequence ==> !final(self).context.is_binding_element')
rule('parse_group_expr', 'R_Group', 'g_expr', 'R_Group', 'R_ArrowParams', loops={
    0: {'+inv': E('L_Exprs(%s, $PUSH0@, self.pos())' % NXA) + E('$PUSH0@.len() >= 2 || $PUSH0@.len() == 1 && pu(self.h(), self.pos(), Punct::Comma)'),
        'ens': E('!pu(self.h(), self.pos(), Punct::Comma)')},
    1: MAPARG, 2: MAPARG, 3: MAPARG})
rule('parse_array_init', 'R_Arr', 'g_expr', 'R_Arr', loops={0: {'+inv': E('L_Arr(%s, $PUSH0@, self.pos())' % NXA)}})
rule('parse_spread_element', 'R_Spread', 'g_expr', 'R_Spread')
ARGS = {0: {'invx': E('S_Args(%s, $PUSH0@, self.pos())' % NXA), 'ens': E('E_Args(%s, $PUSH0@, self.pos())' % NXA)}}
rule('parse_args', 'R_Args', 'g_expr', 'R_Args', val='r->Ok_0@', loops=ARGS)
rule('parse_async_args', 'R_Args', 'g_expr', 'R_Args', val='r->Ok_0@', loops=ARGS)
rule('parse_async_arg', 'R_Assign', 'g_expr')
rule('parse_new_expr', 'R_New', 'g_expr', 'R_New')
TG['parse_super'] = {'+ens': E('r is Ok ==> super_x(old(self).h(), old(self).pos(), r->Ok_0, final(self).pos()) && (pu(old(self).h(), final(self).pos(), Punct::Period) || pu(old(self).h(), final(self).pos(), Punct::OpenBracket))')}
CHAIN_END = '!pu(self.h(), self.pos(), Punct::Period) && !pu(self.h(), self.pos(), Punct::OpenBracket) && !tplhead(tk(self.h(), self.pos()))'
rule('parse_left_hand_side_expr', 'R_Member', 'g_expr', 'R_Member', 'B_Mem', loops={0: {
    '+inv': E('R_Mem(%s, $ASG0, self.pos())' % A), 'ens': E(CHAIN_END)}})
rule('parse_left_hand_side_expr_allow_call', 'R_Call', 'g_expr', 'R_Call', 'B_Lhs', loops={0: {
    '+inv': E('R_Lhs(old(self).h(), c_in(old(self).cx(), true), old(self).pos(), $ASG0, self.pos())'), 'ens': E(CHAIN_END + ' && !pu(self.h(), self.pos(), Punct::OpenParen)')}, 1: MAPARG})
rule('parse_update_expr', 'R_Update', 'g_expr', 'R_Update', 'wfp')
rule('parse_unary_expression', 'R_Unary', 'g_expr', 'B_Unary')
TG['parse_await_expr'] = {'+ens': E('r is Ok ==> (r->Ok_0 matches Expr::Await(e) && R_Unary(%s, *e, %s))' % (NXA, B))}
rule('parse_exponentiation_expression', 'R_Exp', 'g_expr', 'B_Exp')
S = 'self.pos()'
rule('parse_binary_expression', 'R_Binary', 'g_expr', 'R_Binary', loops={
    0: {'+pre': 'proof { lemma_stk_init(%s, stack@, ops@, self.pos()); } let ghost mut fin: Seq<Expr> = stack@; ' % A,
        '+inv': E('forall|q: int| 0 <= q < ops@.len() ==> precs@[q] == tkprec(#[trigger] ops@[q])') + E('fin == stack@ && stk_top(%s, stack@, ops@, self.pos())' % A),
        'ens': E('tkprec(tk(self.h(), self.pos())) == 0 || kw(self.h(), self.pos(), Keyword::In) && (ON_CTX ==> !old(self).cx().allow_in)'),
        'top': 'let ghost m0 = self.pos();',
        'bot': 'proof { lemma_stk_push_top(%s, stack@, ops@, m0, self.pos()); fin = stack@; }' % A},
    1: {'+inv': E('forall|q: int| 0 <= q < ops@.len() ==> precs@[q] == tkprec(#[trigger] ops@[q])') + E('stk(%s, stack@, ops@, lvl(ops@, prec as int), m0)' % A),
        'top': 'let ghost es1 = stack@; let ghost ops1 = ops@;',
        'bot': 'proof { lemma_stk_step(%s, es1, ops1, stack@, ops@, prec as int, m0); }' % A},
    2: {'+pre': 'assert(stack@.push(current) =~= fin); ',
        '+inv': E('stk(%s, stack@.push(current), ops@, lvl(ops@, 1), self.pos())' % A),
        'top': 'let ghost es2 = stack@.push(current); let ghost ops2 = ops@;',
        'bot': 'proof { lemma_stk_step(%s, es2, ops2, stack@.push(current), ops@, 1, self.pos()); }' % A}})
rule('parse_conditional_expr', 'R_Cond', 'g_expr', 'R_Cond')
rule('parse_yield_expr', 'R_Yield', 'g_expr', 'R_Yield', 'wfp')
rule('parse_assignment_expr', 'R_Assign', 'g_expr', 'B_Assign', 'R_Arrow', 'wfp', loops={
    0: {'+inv': E('$IT.seq().len() == $RECV@.len() && forall|q: int| 0 <= q < $RECV@.len() ==> *#[trigger] $IT.seq()[q] == $RECV@[q]') + E('$ASG0 == forall|q: int| 0 <= q < $IT.index@ ==> simple_arg(#[trigger] $RECV@[q])'),
        'post': 'assert($ASG0 == simple_args($RECV@));'},
    **{k: {'+inv': E('$IT.seq().len() == $RECV@.len() && forall|q: int| 0 <= q < $RECV@.len() ==> *#[trigger] $IT.seq()[q] == $RECV@[q]') + E('$ASG0 == exists|q: int| 0 <= q < $IT.index@ && restr_p(#[trigger] $RECV@[q])'),
        'post': 'assert($ASG0 == restr_ps($RECV@));'} for k in (1, 2)}})
# ---- definitions, patterns, statements (see below) ----
H0, P0_ = 'old(self).h()', 'old(self).pos()'
rule('parse_var_ident', 'name_ok', 'g_pat')
TG['parse_var_ident']['+ens'] = E('r is Ok ==> name_ok(%s) && (!$P0 ==> !kw(%s, %s, Keyword::Let)) && r->Ok_0@ == txt(%s, %s) && %s == nx(%s, %s)' % (A, H0, P0_, H0, P0_, B, H0, P0_), 'g_pat')
RESTR = E('r is Ok ==> r->Ok_0.0 == restr_pat(r->Ok_0.1)', 'strict')
rule('parse_rest_element', 'R_Rest', 'g_pat', 'R_Rest', 'R_BRest', val='r->Ok_0.1')
rule('parse_binding_rest_el', 'R_BRest', 'g_pat', 'R_BRest', val='r->Ok_0.1')
rule('parse_pattern_with_default', 'R_PatDef', 'g_pat', 'R_PatDef', val='r->Ok_0.1')
rule('parse_pattern', 'R_Pat', 'g_pat', 'B_Pat', val='r->Ok_0.1')
TG['parse_pattern']['+ens'] += E('r is Ok ==> ($P0 matches Some(k) ==> !(k is Var) ==> !kw(%s, %s, Keyword::Let)) && !(r->Ok_0.1 is Assignment) && !(r->Ok_0.1 is RestElement)' % (H0, P0_), 'g_pat')
for k in ['parse_rest_element', 'parse_pattern_with_default', 'parse_pattern']:
    TG[k]['+ens'] += RESTR
PIN = 'old(self).h(), c_in(old(self).cx(), true), nx(old(self).h(), old(self).pos())'
rule('parse_array_pattern', 'R_Pat', 'g_pat', 'B_Pat', val='r->Ok_0.1', loops={0: {
    'invx': E('L_APat(%s, $PUSH0@, self.pos())' % PIN, 'g_pat'), 'ens': E('pu(self.h(), self.pos(), Punct::CloseBracket) ==> L_APat(%s, $PUSH0@, self.pos())' % PIN, 'g_pat')}})
TG['parse_array_pattern']['+ens'] += E('r is Ok ==> r->Ok_0.1 is Array && !r->Ok_0.0', 'g_pat')
rule('parse_object_pattern', 'R_Pat', 'g_pat', 'B_Pat', val='r->Ok_0.1', loops={0: {
    'invx': E('L_OPat(%s, $PUSH0@, self.pos())' % PIN, 'g_pat'), 'ens': E('pu(self.h(), self.pos(), Punct::CloseBrace) ==> L_OPat(%s, $PUSH0@, self.pos())' % PIN, 'g_pat')}})
TG['parse_object_pattern']['+ens'] += E('r is Ok ==> r->Ok_0.1 is Object && !r->Ok_0.0', 'g_pat')
rule('parse_rest_prop', 'R_RestProp', 'g_pat', 'R_RestProp', 'R_BRest')
rule('parse_property_pattern', 'R_PropPat', 'g_pat', 'R_PropPat')
rule('parse_object_property_key', 'R_Key', 'g_def', 'R_Key')
TG.setdefault('is_valid_property_key_literal', {'+ens': []})['+ens'] += E('r == litkey(*$P0)', 'g_def')

# ---- definitions ----
rule('parse_function_expr', 'R_FuncExpr', 'g_def', 'R_FuncExpr', 'R_FnRest')
rule('parse_function_decl', 'R_FuncDecl', 'g_def', 'R_FuncDecl', 'R_FnRest')
TG['parse_function_decl']['+ens'] += E('r is Ok && !$P0 ==> r->Ok_0.id is Some', 'g_def')
TG['parse_fn_name'] = {'+ens': E('r is Ok ==> (name_ok(%s) || ON_STRICT && old(self).cx().strict && kw(%s, %s, Keyword::Yield)) && !kw(%s, %s, Keyword::Let) && r->Ok_0@ == txt(%s, %s) && %s == nx(%s, %s)' % ((A,) + (H0, P0_) * 3 + (B, H0, P0_)), 'g_def')}
TG['parse_function_source_el'] = {'+ens': E('r is Ok ==> R_BodyC(%s, r->Ok_0@, final(self).cx(), %s)' % (A, B), 'g_def'), '+pre': rev('R_BodyC'), 'loops': {0: {
    '+inv': E('L_Body(old(self).h(), c_body(old(self).cx()), nx(old(self).h(), old(self).pos()), $PUSH0@, self.cx(), self.pos())', 'g_def')}}}
for k in ['parse_property_method_body', 'parse_method_body']:
    TG[k] = {'+ens': E('r is Ok ==> R_MBody(old(self).h(), c_asd(old(self).cx(), $P0), $P1, old(self).pos(), r->Ok_0@, %s)' % B, 'g_def')}
for k, e in {'parse_property_method': 'mflags(r->Ok_0, false, false)', 'parse_async_property_method': 'mflags(r->Ok_0, $P0, true)', 'parse_generator_method': 'mflags(r->Ok_0, true, false)',
             'parse_getter_method': 'getset(PropertyKind::Get, r->Ok_0)', 'parse_setter_method': 'getset(PropertyKind::Set, r->Ok_0)'}.items():
    rule(k, 'R_Method', 'g_def', 'R_Method', 'R_FnRest')
    TG[k]['+ens'] += E('r is Ok ==> ' + e, 'g_def')
WORD = 'proof { ax_word(old(self).h(), old(self).pos()); ax_word(old(self).h(), nx(old(self).h(), old(self).pos())); } '
rule('parse_obj_prop', 'R_Prop', 'g_def', 'R_Prop', val='r->Ok_0.1')
TG['parse_obj_prop']['+pre'] += WORD
TG['parse_obj_prop']['+ens'] += E('r is Ok ==> r->Ok_0.0 == ($P0 || proto(r->Ok_0.1))', 'g_def') + E('r is Ok && $P0 ==> !proto(r->Ok_0.1)', 'early')
rule('parse_obj_init', 'R_Obj', 'g_def', 'R_Obj', loops={0: {'+inv': E('L_Obj(%s, $PUSH0@, self.pos())' % NXA, 'g_def') + E('n_proto($PUSH0@) == if has_proto { 1int } else { 0int }', 'early')}})
rule('parse_class_decl', 'R_Class', 'g_def', 'R_Class')
TG['parse_class_decl']['+ens'] += E('r is Ok && !$P0 ==> r->Ok_0.id is Some', 'g_def')
rule('parse_class_body', 'R_ClsBody', 'g_def', 'R_ClsBody', val='r->Ok_0@', loops={0: {'+inv': E('L_Cls(%s, $PUSH0@, self.pos())' % NXA, 'g_def') + E('n_ctor($PUSH0@) == if has_ctor { 1int } else { 0int }', 'early')}})
rule('parse_class_el', 'R_ClsEl', 'g_def', 'R_ClsEl', 'R_Key', 'R_Method', val='r->Ok_0.1')
TG['parse_class_el']['+pre'] += WORD + 'proof { if ON_ASI { reveal(wfp); } } proof { reveal_strlit("async"); reveal_strlit("constructor"); assert("async"@.len() != "constructor"@.len()); } '
TG['parse_class_el']['+ens'] += E('r is Ok ==> r->Ok_0.0 == ($P0 || r->Ok_0.1.kind is Ctor)', 'g_def') + E('r is Ok && $P0 ==> !(r->Ok_0.1.kind is Ctor)', 'early')
TG['parse_directive'] = {'+ens': E('r is Ok && tk(old(self).h(), old(self).pos()) is String ==> R_Dir(%s, r->Ok_0, %s)' % (A, B), 'g_def') + E('r is Ok ==> final(self).cx() == c_str(old(self).cx(), is_us(r->Ok_0))', 'g_def'), '+pre': rev('R_Dir')}
TG['consume_semicolon'] = {'+pre': rev('wfp'), '+ens': E('r is Ok ==> semi(old(self).h(), old(self).pos(), final(self).pos())', 'asi')}
TG['parse_directive_prologues'] = {'+ens': E('r is Ok ==> R_Prologue(%s, r->Ok_0@, final(self).cx(), %s)' % (A, B), 'g_def'), '+pre': rev('R_Prologue'), 'loops': {0: {
    'invx': E('L_Dirs(%s, $PUSH0@, self.pos()) && self.cx() == c_str(old(self).cx(), has_us($PUSH0@))' % A, 'g_def') + E('$PUSH0@.len() > 0 ==> $PUSH0@.last() is Dir', 'g_def'),
    'ens': E('L_Dirs(%s, $PUSH0@, self.pos()) && self.cx() == c_str(old(self).cx(), has_us($PUSH0@)) && (tk(self.h(), self.pos()) is String ==> $PUSH0@.len() > 0 && !($PUSH0@.last() is Dir))' % A, 'g_def')}}}
for k, e in {'at_qualified_prop_key': 'r == qual(tk(self.h(), self.pos()))', 'qualified_prop_name': 'r == qual2(*$P0)', 'is_static': 'r == key_is(*$P0, "static"@)', 'is_key': 'r == key_is(*$P0, $P1@)',
             'is_prop_name': 'r == prop_is(*$P0, $P1@)', 'is_proto_': 'r == protokey(*$P0)', 'is_generator': '*$P0 matches PropertyValue::Expr(Expr::Function(f)) ==> r == f.generator', 'is_rest': 'r == rest_arg(*$P0)'}.items():
    TG.setdefault(k, {'+ens': []})['+ens'] += E(e, 'g_def')
rule('parse_formal_param', 'R_Formal', 'g_def', 'R_Formal', val='r->Ok_0.2')
TG['parse_formal_param']['+ens'] += E('r is Ok ==> r->Ok_0.0 == ($P0 && simple_arg(r->Ok_0.2)) && r->Ok_0.1 == restr_arg(r->Ok_0.2)', 'g_def')
rule('parse_formal_params', 'R_Formals', 'g_def', 'R_Formals', val='r->Ok_0.params@', loops={0: {
    '+inv': E('$ASG0 == simple_args($PUSH0@) && found_restricted == restr_args($PUSH0@)', 'g_def'), 'invx': E('L_Form(%s, $PUSH0@, self.pos())' % NXA, 'g_def'),
    'ens': E('pu(self.h(), self.pos(), Punct::CloseParen) ==> L_Form(%s, $PUSH0@, self.pos())' % NXA, 'g_def')}})
TG['parse_formal_params']['+ens'] += E('r is Ok ==> !r->Ok_0.strict && r->Ok_0.simple == simple_args(r->Ok_0.params@) && r->Ok_0.found_restricted == restr_args(r->Ok_0.params@)', 'g_def')
for k in 'parse_assignment_expr parse_yield_expr parse_conditional_expr parse_binary_expression parse_exponentiation_expression parse_unary_expression parse_await_expr parse_update_expr parse_left_hand_side_expr_allow_call parse_left_hand_side_expr parse_super parse_new_expr parse_primary_expression parse_group_expr'.split():
    TG[k]['+ens'] = TG[k]['+ens'] + BIND
TG['parse_assignment_expr']['+ens'] = TG['parse_assignment_expr']['+ens'] + E('r is Ok ==> !(r->Ok_0 is ArrowParamPlaceHolder)')
for k in ['parse_left_hand_side_expr_allow_call', 'parse_left_hand_side_expr']:
    TG[k]['loops'][0]['+inv'] = TG[k]['loops'][0]['+inv'] + E('$ASG0 is Sequence ==> !self.context.is_binding_element')
for k in ['parse_conditional_expr', 'parse_yield_expr', 'parse_assignment_expr']:
    TG[k]['+pre'] += 'assert(tc(c_in(old(self).cx(), true)) && tc(c_yld(old(self).cx(), false))); '

TG['parse_yield_expr']['+ens'] = TG['parse_yield_expr']['+ens'] + E('r is Ok ==> !(r->Ok_0 is ArrowParamPlaceHolder)')
for k in ['parse_function_expr', 'parse_obj_init', 'parse_array_init']:
    TG[k]['+ens'] = TG[k]['+ens'] + E('r is Ok ==> !(r->Ok_0 is ArrowParamPlaceHolder) && !(r->Ok_0 is Sequence)')
TG['parse_binary_expression']['loops'][0]['+inv'] += E('ops@.len() >= 1')
TG['parse_binary_expression']['loops'][2]['+inv'] += E('ops@.len() >= 1 || current is Binary || current is Logical')

TG['parse_function_expr']['+ens'] = TG['parse_function_expr']['+ens'] + E('r is Ok ==> r->Ok_0 is Function')
TG['parse_primary_expression']['+ens'] = TG['parse_primary_expression']['+ens'] + E('r is Ok && (tk(old(self).h(), old(self).pos()) is Ident || kw(old(self).h(), old(self).pos(), Keyword::Yield)) ==> r->Ok_0 is Ident || r->Ok_0 is Function')

TG['parse_assignment_expr']['rlimit'] = 120

# ---- statements ----
NX2 = 'old(self).h(), old(self).cx(), nx(old(self).h(), nx(old(self).h(), old(self).pos()))'
LET = 'letnext(tk(old(self).h(), nx(old(self).h(), old(self).pos())))'
rule('parse_statement_list_item', 'R_Item', 'g_stmt', 'B_Item', 'R_Lex')
rule('parse_statement', 'R_Stmt', 'g_stmt', 'B_Stmt')
TG['at_lexical_decl'] = {'+ens': E('kw(old(self).h(), old(self).pos(), Keyword::Let) ==> r == ' + LET, 'g_stmt')}
TG['at_import_call']['+ens'] += E('kw(old(self).h(), old(self).pos(), Keyword::Import) ==> r == pu(old(self).h(), nx(old(self).h(), old(self).pos()), Punct::OpenParen)', 'g_stmt')
TG['at_return_arg'] = {'+ens': E('!ON_ASI ==> (r || nl(self.h(), self.pos()) || pu(self.h(), self.pos(), Punct::SemiColon) || pu(self.h(), self.pos(), Punct::CloseBrace) || tk(self.h(), self.pos()) is EoF)', 'g_stmt') + E('ON_ASI ==> r == !(nl(self.h(), self.pos()) || pu(self.h(), self.pos(), Punct::SemiColon) || pu(self.h(), self.pos(), Punct::CloseBrace) || tk(self.h(), self.pos()) is EoF)', 'g_stmt'), '+req': [('wf', '!self.found_eof')], '+pre': rev('wfp')}
TG['is_pat_ident'] = {'+ens': E('r == (*$P0 is Identifier)', 'g_stmt')}
TG['is_restricted'] = {'+ens': E('r == (*$P0 matches Pat::Identifier(i) && restricted(i@))', 'g_stmt')}
for f, r_ in {'with': 'With', 'while': 'While', 'do_while': 'Do', 'if': 'If', 'return': 'Return', 'throw': 'Throw', 'try': 'Try', 'for': 'For'}.items():
    rule('parse_%s_stmt' % f, 'R_' + r_, 'g_stmt', 'R_' + r_, 'wfp')
rule('parse_if_clause', 'R_IfCl', 'g_stmt', 'R_IfCl')
rule('parse_fn_stmt', 'R_FuncDecl', 'g_stmt', val='(r->Ok_0->Function_0)')
TG['parse_fn_stmt']['+ens'] += E('r is Ok ==> r->Ok_0 is Function', 'g_stmt')
TG['parse_var_stmt'] = {'+ens': E('r is Ok ==> (r->Ok_0 matches Stmt::Var(v) && R_VarStmt(%s, v@, %s))' % (A, B), 'g_stmt'), '+pre': rev('R_VarStmt')}
rule('parse_lexical_decl', 'R_Lex', 'g_stmt', 'R_Lex')
TG['parse_lexical_decl']['+ens'] = E('r is Ok && !$P0 ==> R_Lex(%s, r->Ok_0, %s)' % (A, B), 'g_stmt')
VAR, FOR = 'VariableKind::Var', 'if $P0 { 1int } else { 0int }'
FOR2 = FOR.replace('1int', '2int')
LD = 'L_Decls(old(self).h(), old(self).cx(), %s, %s, old(self).pos(), %s, %s)'
DL = {0: {'ens': E('!pu(self.h(), self.pos(), Punct::Comma)', 'g_stmt')}}
for k, kind, f in [('parse_var_decl_list', VAR, FOR2), ('parse_variable_decl_list', VAR, FOR), ('parse_binding_list', '$P0', FOR.replace('$P0', '$P1'))]:
    TG[k] = {'+ens': E('r is Ok ==> ' + LD % (kind, f, 'r->Ok_0@', B) + ' && !pu(final(self).h(), final(self).pos(), Punct::Comma)', 'g_stmt'),
             'loops': {0: {'+inv': E(LD % (kind, f, '$PUSH0@', 'self.pos()'), 'g_stmt'), 'ens': E('!pu(self.h(), self.pos(), Punct::Comma)', 'g_stmt')}}}
for k, kind, f in [('parse_var_decl', VAR, FOR2), ('parse_variable_decl', VAR, FOR), ('parse_lexical_binding', '$P0', FOR.replace('$P0', '$P1'))]:
    TG[k] = {'+ens': E('r is Ok ==> R_Decl(old(self).h(), old(self).cx(), %s, %s, old(self).pos(), r->Ok_0, %s)' % (kind, f, B), 'g_stmt'), '+pre': rev('R_Decl')}
rule('parse_finally_clause', 'R_Finally', 'g_stmt', 'R_Finally', val='r->Ok_0@')
rule('parse_catch_clause', 'R_Catch', 'g_stmt', 'R_Catch')
rule('parse_block', 'R_Block', 'g_stmt', 'R_Block', val='r->Ok_0@', loops={0: {'+inv': E('L_Items(%s, $PUSH0@, self.pos())' % NXA, 'g_stmt')}})
rule('parse_switch_stmt', 'R_Switch', 'g_stmt', 'R_Switch', loops={0: {'+pre': 'let ghost a9 = self.pos(); ',
    '+inv': E('L_Cases(old(self).h(), c_sw(old(self).cx()), a9, $PUSH0@, self.pos())', 'g_stmt') + E('n_default($PUSH0@) == if found_default { 1int } else { 0int }', 'early')}})
rule('parse_switch_case', 'R_Case', 'g_stmt', 'R_Case', loops={0: {'+pre': 'let ghost a9 = self.pos(); ',
    '+inv': E('L_Items(old(self).h(), old(self).cx(), a9, $PUSH0@, self.pos())', 'g_stmt')}})
rule('parse_expression_statement', 'R_ExprStmt', 'g_stmt', 'R_ExprStmt')
for k, kwd in [('parse_break_stmt', 'Keyword::Break'), ('parse_continue_stmt', 'Keyword::Continue'), ('parse_optionally_labeled_statement', '$P0')]:
    TG[k] = {'+ens': E('r is Ok ==> R_Jump(old(self).h(), old(self).cx(), %s, old(self).pos(), r->Ok_0, %s)' % (kwd, B), 'g_stmt'), '+pre': rev('R_Jump', 'wfp')}
TG['parse_debugger_stmt'] = {'+ens': E('r is Ok ==> r->Ok_0 is Debugger && kw(old(self).h(), old(self).pos(), Keyword::Debugger) && semi(old(self).h(), nx(old(self).h(), old(self).pos()), %s)' % B, 'g_stmt')}
rule('parse_labelled_statement', 'R_Labelled', 'g_stmt', 'R_Labelled')
rule('parse_loop_body', 'R_LBody', 'g_stmt', 'R_LBody')
FC = 'R_ForCont(%s, r->Ok_0.test, r->Ok_0.update, *r->Ok_0.body, %s)' % (A, B)
TG['parse_for_loop_cont'] = {'+ens': E('r is Ok ==> %s && r->Ok_0.init == $P0' % FC, 'g_stmt'), '+pre': rev('R_ForCont')}
TG['parse_for_loop'] = {'+ens': E('r is Ok && pu(old(self).h(), old(self).pos(), Punct::SemiColon) ==> %s && r->Ok_0.init is None' % FC, 'g_stmt')}
TG['parse_for_in_loop'] = {'+ens': E('r is Ok && kw(old(self).h(), old(self).pos(), Keyword::In) ==> R_InTail(%s, r->Ok_0.right, *r->Ok_0.body, %s) && r->Ok_0.left == $P0' % (A, B), 'g_stmt'), '+pre': rev('R_InTail')}
TG['parse_for_of_loop'] = {'+ens': E('r is Ok && cw(old(self).h(), old(self).pos(), "of"@) ==> R_OfTail(%s, r->Ok_0.right, *r->Ok_0.body, %s) && r->Ok_0.left == $P0 && r->Ok_0.is_await == $P1' % (A, B), 'g_stmt'), '+pre': rev('R_OfTail')}
rule('parse_for_stmt_rest', 'R_ForRest', 'g_stmt', 'R_ForRest', 'R_InTail', 'R_OfTail', loops={0: {
    '+inv': E('L_Exprs(old(self).h(), c_in(old(self).cx(), false), nx(old(self).h(), old(self).pos()), $PUSH0@, self.pos())', 'g_stmt') + E('$PUSH0@.len() >= 2 || $PUSH0@.len() == 1 && pu(self.h(), self.pos(), Punct::Comma)', 'g_stmt'),
    'ens': E('!pu(self.h(), self.pos(), Punct::Comma)', 'g_stmt')}})
TG['parse_for_stmt_rest']['+ens'] += E('r matches Ok(Stmt::ForOf(f)) ==> f.is_await == $P0', 'g_stmt')
# ---- modules ----
rule('parse_import_decl', 'R_Import', 'g_mod', 'R_Import')
TG['parse_import_decl']['+pre'] += 'assert(tc(old(self).cx())); '
rule('parse_named_imports', 'R_Named', 'g_mod', 'R_Named', val='r->Ok_0@', loops={0: {'+inv': E('L_Imp(%s, $PUSH0@, self.pos())' % NXA, 'g_mod')}})
rule('parse_import_specifier', 'R_ImpSpec', 'g_mod', 'R_ImpSpec')
TG['parse_import_namespace_specifier'] = {'+ens': E('r is Ok ==> imp_ns(%s, %s, r->Ok_0, %s)' % (H0, P0_, B), 'g_mod')}
TG['parse_import_default_specifier'] = {'+ens': E('r is Ok ==> imp_def(%s, %s, r->Ok_0, %s)' % (H0, P0_, B), 'g_mod')}
TG['parse_module_specifier'] = {'+ens': E('r is Ok ==> mod_src(%s, %s, r->Ok_0) && %s == nx(%s, %s)' % (H0, P0_, B, H0, P0_), 'g_mod')}
rule('parse_export_decl', 'R_Export', 'g_mod', 'R_Export', 'R_VarStmt', 'R_Lex', loops={0: {'+inv': E('L_Exp(%s, $PUSH0@, self.pos())' % NX2, 'g_mod')}})
rule('parse_export_specifier', 'R_ExpSpec', 'g_mod', 'R_ExpSpec')
for k, n_ in [('parse_import_namespace_specifier', 'imp_ns'), ('parse_import_default_specifier', 'imp_def')]:
    TG[k]['+pre'] = rev(n_)

# ---- the program ----
_NP = ('if !old(self).context.past_prolog && tk(old(self).h(), old(self).pos()) is String { R_Dir(%s, {v}, %s) && final(self).cx() == c_str(old(self).cx(), is_us({v})) && final(self).context.past_prolog == !({v} is Dir) } '
       'else { R_Item(%s, {v}, %s) && final(self).cx() == old(self).cx() && final(self).context.past_prolog }' % (A, B, A, B))
TG['next_part'] = {'+ens': E('r is Ok ==> (%s)' % _NP.replace('{v}', 'r->Ok_0'), 'g_prog')}
TG['Iterator::next'] = {'+ens': E('r matches Some(Ok(p)) ==> (%s)' % _NP.replace('{v}', 'p'), 'g_prog')
    + E('r is None ==> final(self).cx() == old(self).cx() && final(self).context.past_prolog == old(self).context.past_prolog', 'g_prog')}
_PB = ('(if self.context.past_prolog { L_Body(%s, body@, self.cx(), self.pos()) } '
       'else { L_Dirs(%s, body@, self.pos()) && self.cx() == c_str(old(self).cx(), has_us(body@)) && (body@.len() > 0 ==> body@.last() is Dir) })'.replace('body@', '$PUSH0@') % (A, A))
TG['parse'] = {'+ens': E('r is Ok && !old(self).context.past_prolog ==> L_Body(%s, body_of(r->Ok_0), final(self).cx(), %s)' % (A, B), 'g_prog'),
    'loops': {0: {'+inv': E('!old(self).context.past_prolog ==> ' + _PB, 'g_prog')}}}

# ---- assignment targets (toggle ON_TARGET): the cover flag is raised only behind a target ----
F0, F1 = 'old(self).context.is_assignment_target', 'final(self).context.is_assignment_target'
FS = 'self.context.is_assignment_target'
AA = 'old(self).h(), old(self).cx(), old(self).pos()'
TT = {}


def tgt(key, *es, loops=None):
    d = TT.setdefault(key, {'+ens': []})
    for e in es:
        d['+ens'] = d['+ens'] + E(e, 'target')
    if loops:
        d['loops'] = {k: {'+inv': [x for e in v for x in E(e, 'target')]} for k, v in loops.items()}


TGT = 'r is Ok && %s ==> tgt_ok(%s, r->Ok_0) || r->Ok_0 is ArrowParamPlaceHolder' % (F1, AA)
NOT, MONO = 'r is Ok ==> !' + F1, 'r is Ok && %s ==> %s' % (F1, F0)
for k in ('parse_conditional_expr parse_binary_expression parse_exponentiation_expression parse_unary_expression parse_update_expr '
          'parse_left_hand_side_expr_allow_call parse_left_hand_side_expr parse_primary_expression parse_group_expr parse_array_init parse_obj_init').split():
    tgt(k, TGT)
for k in ['parse_assignment_expr', 'parse_async_arg']:
    tgt(k, 'r is Ok && %s ==> tgtd(%s, r->Ok_0)' % (F1, AA))
for k in ('parse_yield_expr parse_await_expr parse_new_expr parse_property_method parse_async_property_method parse_generator_method parse_getter_method '
          'parse_setter_method parse_property_method_body parse_method_body').split():
    tgt(k, NOT)
for k in ('parse_function_expr parse_class_decl parse_class_body parse_class_el parse_template_literal parse_template_element parse_formal_params '
          'parse_formal_param parse_pattern parse_pattern_with_default parse_array_pattern parse_object_pattern parse_property_pattern parse_rest_prop parse_rest_element '
          'parse_binding_rest_el parse_var_ident parse_fn_name parse_ident_name parse_object_property_key parse_function_source_el parse_args parse_async_args '
          'reinterpret_as_cover_formals_list expect_comma_sep parse_expression parse_spread_element parse_obj_prop').split():
    tgt(k, MONO)
ML = '%s ==> %s' % (FS, F0)
for k in 'parse_class_body parse_template_literal parse_formal_params parse_array_pattern parse_object_pattern parse_args parse_async_args parse_expression'.split():
    tgt(k, loops={0: [ML]})
tgt('parse_spread_element', 'r is Ok && %s ==> spread_tgt(%s, r->Ok_0)' % (F1, AA))
tgt('parse_obj_prop', 'r is Ok && %s ==> prop_tgt(old(self).h(), old(self).cx(), r->Ok_0.1, final(self).pos())' % F1)
tgt('parse_array_init', loops={0: ['%s ==> L_TArr(%s, $PUSH0@, self.pos())' % (FS, NXA)]})
tgt('parse_obj_init', loops={0: ['%s ==> L_TObj(%s, $PUSH0@, self.pos())' % (FS, NXA)]})
SUP = '$ASG0 is Super ==> pu(self.h(), self.pos(), Punct::Period) || pu(self.h(), self.pos(), Punct::OpenBracket)'
TLOOP = '%s ==> tgt_ok(%s, $ASG0) || $ASG0 is ArrowParamPlaceHolder || $ASG0 is Super' % (FS, AA)
tgt('parse_left_hand_side_expr', loops={0: [TLOOP, SUP]})
tgt('parse_left_hand_side_expr_allow_call', loops={0: [TLOOP, SUP + ' || pu(self.h(), self.pos(), Punct::OpenParen)']})
tgt('parse_group_expr', loops={0: ['!' + FS]})
tgt('parse_binary_expression', loops={0: ['!' + FS]})
for k in ['parse_group_expr', 'parse_array_init', 'parse_obj_init', 'parse_left_hand_side_expr', 'parse_left_hand_side_expr_allow_call', 'parse_primary_expression']:
    TT[k]['+pre'] = rev('B_Tgt')
TT['parse_obj_prop']['+pre'] = rev('prop_tgt')
for k in ('parse_assignment_expr parse_conditional_expr parse_binary_expression parse_exponentiation_expression parse_unary_expression parse_await_expr parse_update_expr parse_yield_expr '
          'parse_left_hand_side_expr_allow_call parse_left_hand_side_expr parse_primary_expression parse_group_expr parse_array_init parse_obj_init parse_new_expr').split():
    tgt(k, 'r is Ok ==> !(r->Ok_0 is Super)')
TT["parse_binary_expression"]["loops"].update({1: {"+inv": E("!" + FS, "target")}, 2: {"+inv": E("!" + FS, "target")}})

# the same for the flag of binding elements, which arrow parameters are checked by
B0, B1, BS = [x.replace('is_assignment_target', 'is_binding_element') for x in (F0, F1, FS)]
BND = 'r is Ok && %s ==> bnd_ok(%s, r->Ok_0) || r->Ok_0 is ArrowParamPlaceHolder' % (B1, AA)
for k, d in list(TT.items()):
    add = []
    for t, e in d['+ens']:
        if e in (TGT, NOT, MONO):
            add.append((t, {TGT: BND, NOT: NOT.replace(F1, B1), MONO: MONO.replace(F1, B1).replace(F0, B0)}[e]))
    d['+ens'] = d['+ens'] + add
    for v in (d.get('loops') or {}).values():
        v['+inv'] = v['+inv'] + [(t, {ML: ML.replace(FS, BS).replace(F0, B0)}[e]) for t, e in v['+inv'] if e == ML]
for k in ['parse_assignment_expr', 'parse_async_arg']:
    tgt(k, 'r is Ok && %s ==> bndd(%s, r->Ok_0)' % (B1, AA))
tgt('parse_spread_element', 'r is Ok && %s ==> spread_bnd(%s, r->Ok_0)' % (B1, AA))
tgt('parse_obj_prop', 'r is Ok && %s ==> prop_bnd(old(self).h(), old(self).cx(), r->Ok_0.1, final(self).pos())' % B1)
tgt('parse_async_args', 'r is Ok && %s ==> bnd_args(%s, r->Ok_0@)' % (B1, AA))


def inv(key, k, *es, part='+inv'):
    v = TT[key].setdefault('loops', {}).setdefault(k, {})
    v[part] = v.get(part, []) + [x for e in es for x in E(e, 'target')]


inv('parse_array_init', 0, '%s ==> L_BArr(%s, $PUSH0@, self.pos())' % (BS, NXA))
inv('parse_obj_init', 0, '%s ==> L_BObj(%s, $PUSH0@, self.pos())' % (BS, NXA))
inv('parse_async_args', 0, '%s ==> L_BArg(%s, $PUSH0@, self.pos())' % (BS, NXA))
for k in ['parse_left_hand_side_expr', 'parse_left_hand_side_expr_allow_call']:
    inv(k, 0, TLOOP.replace(FS, BS).replace('tgt_ok', 'bnd_ok'))
inv('parse_group_expr', 0, '%s ==> L_Bnds(%s, $PUSH0@, self.pos())' % (BS, NXA))
for k in (0, 1, 2):
    inv('parse_binary_expression', k, '!' + BS)
for k in ['parse_group_expr', 'parse_array_init', 'parse_obj_init', 'parse_left_hand_side_expr', 'parse_left_hand_side_expr_allow_call', 'parse_primary_expression']:
    TT[k]['+pre'] = TT[k]['+pre'] + rev('B_Bnd')
TT['parse_obj_prop']['+pre'] += rev('prop_bnd')
TT['parse_async_args']['+pre'] = rev('bnd_args')
