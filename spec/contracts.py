"""Contracts for the functions of /repo/src/lib.rs.  get(key, f) -> dict(req, ens, dec, loop, ...)"""
import os
T = {}
from gram import TG, TT
CFG = {}
_D = os.path.dirname(os.path.abspath(__file__))
LOOPS = dict(l.rstrip('\n').split(': ', 1) for l in open(os.path.join(_D, 'known_loops.txt')))
KNOWN = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_fns.txt')).read().split()

WF = ('wf', 'final(self).wf()')
FR = ('frame', 'fr(old(self), final(self))')

# call order for calls that consume nothing: a function may call any function of lower rank at its own position
ORDER = '''
parse next_elem Iterator::next next_part parse_directive_prologues parse_directive
parse_statement_list_item parse_import_decl parse_export_decl parse_if_clause
parse_statement parse_labelled_statement parse_expression_statement
parse_with_stmt parse_while_stmt parse_var_stmt parse_var_decl_list parse_var_decl parse_try_stmt
parse_finally_clause parse_catch_clause parse_throw_stmt
parse_switch_stmt parse_switch_case parse_return_stmt parse_if_stmt parse_fn_stmt parse_for_stmt
parse_for_loop parse_for_loop_cont parse_for_in_loop parse_for_of_loop parse_loop_body parse_do_while_stmt
parse_break_stmt parse_continue_stmt parse_optionally_labeled_statement parse_debugger_stmt
parse_method_body parse_property_method_body parse_function_source_el
parse_block parse_lexical_decl parse_binding_list parse_variable_decl_list parse_variable_decl parse_lexical_binding
parse_named_imports parse_import_specifier parse_import_namespace_specifier parse_import_default_specifier
parse_export_specifier parse_module_specifier
parse_async_args parse_async_arg parse_args
parse_expression parse_assignment_expr parse_yield_expr parse_conditional_expr parse_binary_expression
parse_exponentiation_expression parse_unary_expression parse_await_expr parse_update_expr
parse_left_hand_side_expr_allow_call parse_left_hand_side_expr parse_super parse_new_expr
parse_spread_element expect_comma_sep
parse_primary_expression parse_group_expr parse_array_init parse_obj_init parse_obj_prop
parse_function_expr parse_function_decl parse_class_decl parse_class_body parse_class_el
parse_getter_method parse_setter_method parse_async_property_method parse_generator_method parse_property_method
parse_formal_params parse_formal_param parse_rest_element parse_binding_rest_el parse_pattern_with_default parse_pattern
parse_array_pattern parse_object_pattern parse_rest_prop parse_property_pattern
parse_object_property_key parse_template_literal parse_template_element
parse_fn_name parse_var_ident parse_ident_name
consume_semicolon expect_punct expect_keyword next_item
'''.split()
RANK = {n: 10 * (len(ORDER) - i) for i, n in enumerate(ORDER)}


def rank(key):
    return RANK.get(key, 5)


# functions that walk the program's own items, and those behind which the rest of a body is strict
ITEMS = {'parse', 'next_part', 'Iterator::next'}
NS = ITEMS | {'parse_directive', 'parse_directive_prologues', 'parse_function_source_el'}


def parse_default(key, f, lt=True):
    ens = [(FR[0], FR[1].replace('fr(', 'fr0(')) if key in ITEMS else FR, WF]
    ens.append(('progress', 'r is Ok ==> final(self).mu() %s old(self).mu()' % ('<' if lt else '<=')))
    ens.append(('progress', 'final(self).mu() <= old(self).mu()'))
    ens.append(('ctx', 'r is Ok ==> cx_ns(old(self).cx(), final(self).cx())' if key in NS else 'r is Ok ==> final(self).cx() == old(self).cx()'))
    if CFG.get('ON_POS'):
        ens.append(('pos', 'r is Err ==> err_ok(final(self), r->Err_0)'))
        if lt:
            ens.append(('pos', 'r is Ok ==> final(self).pos() > old(self).pos()'))
    return dict(req=[('wf', 'old(self).wf()')], ens=ens, dec='old(self).mu(), %dint' % rank(key))


NOT_STRICT = {'reinterpret_as_cover_formals_list', 'parse', 'parse_statement_PLACEHOLDER', 'consume_semicolon', 'parse_directive_prologues', 'expect_comma_sep'}


def default_loop(key):
    def g(k, l, f):
        d = dict(inv=[], pre='', dec=None)
        if l['kind'] in ('while', 'loop') and any(p['name'] == 'self' and '&mut' in p['ty'] for p in f['params']):
            d['pre'] = 'let ghost g%d = *self;' % k
            d['inv'] = [('wf', 'self.wf()'), ('frame', 'fr(old(self), self)'), ('frame', 'fr(&g%d, self)' % k), ('progress', 'self.mu() <= g%d.mu()' % k),
                        ('ctx', 'self.cx() == g%d.cx()' % k)]
            if key in ITEMS:
                d['inv'] = [(t, e.replace('fr(', 'fr0(')) for t, e in d['inv']]
            if key in NS:
                d['inv'] = [e for e in d['inv'] if e[0] != 'ctx'] + [('ctx', 'cx_ns(g%d.cx(), self.cx())' % k)] + ([('ctx', 'cx_ns(old(self).cx(), self.cx())')] if key != 'parse_function_source_el' else [])
            d['dec'] = 'self.mu()'
        return d
    return g


def get(key, f):
    self_ty = next((p['ty'] for p in f['params'] if p['name'] == 'self'), None)
    is_res = (f['ret'] or '').startswith('Res<') or (f['ret'] or '').startswith('Result<')
    c = dict(req=[], ens=[], dec=None)
    if not (f['owner'] or '').startswith('Parser'):
        pass
    elif self_ty == '&mut self' and is_res:
        c = parse_default(key, f, key not in NOT_STRICT)
    elif self_ty == '&self':
        c = dict(req=[('wf', 'self.wf()')], ens=[])
    elif self_ty == '&mut self':
        c = dict(req=[('wf', 'old(self).wf()')], ens=[FR, WF, ('progress', 'final(self).mu() == old(self).mu()')])
    if f['ret'] == 'Res<Expr>' and self_ty == '&mut self':
        c['ens'] = c['ens'] + [('lit', 'r is Ok ==> lit_ok(r->Ok_0)')]
    c['is_default'] = key not in T
    c['rlimit'] = 40
    c['loop'] = default_loop(key)
    for t in [T.get(key)] + ([TG.get(key)] if CFG.get('ON_G') else []) + ([TT.get(key)] if CFG.get('ON_TARGET') else []):
        if t is None:
            continue
        t = t(f) if callable(t) else t
        for k, v in t.items():
            if k == '+ens':
                c['ens'] = c['ens'] + v
            elif k == '+req':
                c['req'] = c['req'] + v
            elif k == '+pre':
                c['pre'] = (c.get('pre') or '') + v
            elif k == 'loops':
                base = c['loop']
                def g(kk, l, f, v=v, base=base):
                    d = base(kk, l, f)
                    for a, b in (v.get(kk) or {}).items():
                        if a == '+inv':
                            d['inv'] = d['inv'] + b
                        elif a == '+pre':
                            d['pre'] = d.get('pre', '') + b
                        else:
                            d[a] = b
                    return d
                c['loop'] = g
            else:
                c[k] = v
    if CFG.get('ON_POS'):
        c['rlimit'] = 500 if key == 'parse_for_stmt_rest' else max(150, c['rlimit'])
    if CFG.get('ON_G'):
        # partial correctness: termination is what the plain run establishes
        c['dec'] = None
        c['nodec'] = True
        c['ens'] = [e for e in c['ens'] if e[0] != 'progress']
        base = c['loop']
        def nd(kk, l, f, base=base):
            d = base(kk, l, f)
            return dict(d, dec=None, inv=[e for e in d.get('inv', []) if e[0] != 'progress'])
        c['loop'] = nd
    return c


def pure(expr, **k):
    return dict(req=[], ens=[('val', expr)], **k)


E = lambda e, tag='val': [(tag, e)]
ERRP = 'proof { if ON_POS { reveal(tpos); let i = choose|i: int| 0 <= i <= self.pos() && !(tk(self.h(), i) is Comment) && $P0.token == tk(self.h(), i) && $P0.span == #[trigger] sp(self.h(), i); ax_slice(src(self.h()), sp(self.h(), i).start as int, sp(self.h(), i).end as int); assert(pos_ok(self.h(), self.pos(), tpos(self.h(), i))); } }'
IT = 'self.look_ahead'

T.update({
    'Config::default': pure('!r.tolerant'),
    'Context::default': pure('!r.is_module && !r.r#await && r.allow_in && r.allow_strict_directive && r.allow_yield && !r.in_function_body '
                             '&& !r.in_iteration && !r.in_switch && r.label_set@ == Set::<Seq<char>>::empty() && !r.strict && !r.has_line_term && !r.past_prolog'),
    'Builder::new': pure('!r.tolerant && !r.is_module && r.js@ == Seq::<char>::empty()'),
    'Builder::set_tolerant': pure('*final(self) == (Builder { tolerant: $P0, ..*old(self) })'),
    'Builder::set_module': pure('*final(self) == (Builder { is_module: $P0, ..*old(self) })'),
    'Builder::set_js': pure('final(self).tolerant == old(self).tolerant && final(self).is_module == old(self).is_module && final(self).js@ == $P0.istr()'),
    'next_item': dict(req=[('wf', 'old(self).wf0()')], rlimit=60,
        ens=[('frame', 'fr(old(self), final(self))'), ('wf', 'final(self).wf0()'),
             ('next', 'r is Ok && old(self).pos() >= 0 ==> r->Ok_0 == item(old(self).h(), old(self).pos())'),
             ('next', 'r is Ok ==> final(self).pos() == nx(old(self).h(), old(self).pos())'),
             ('next', 'r is Ok && old(self).pos() < 0 ==> final(self).pos() >= 0'), ('pos', 'r is Err ==> r->Err_0 is UnexpectedEoF || r->Err_0 is ParseAfterEoF'),
             ('wf', 'old(self).wf() ==> final(self).wf()'),
             ('progress', 'r is Ok ==> final(self).mu() < old(self).mu()'), ('progress', 'final(self).mu() <= old(self).mu()'), ('progress', 'old(self).pos() < n(old(self).h()) - 1 ==> r is Ok'),
             ('same', 'cov_eq(final(self), old(self)) && ctx_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog'),
             ('next', 'r is Ok && old(self).pos() >= 0 && !(tk(old(self).h(), old(self).pos()) is EoF) ==> !final(self).found_eof && final(self).context.has_line_term == nl(final(self).h(), final(self).pos())'),
             ('ctx', 'final(self).cx() == old(self).cx()')], dec=None, nodec=False,
        pre='proof { reveal(wfp); if old(self).pos() < n(old(self).h()) - 1 { ax_nl(old(self).h(), old(self).pos()); } ax_cmts(old(self).h(), old(self).pos()); if ON_POS { reveal(tpos); reveal(prevp); let i = nx(old(self).h(), old(self).pos()); if 0 <= i < n(old(self).h()) { ax_slice(src(old(self).h()), sp(old(self).h(), i).start as int, sp(old(self).h(), i).end as int); } } }',
        loops={0: dict(inv=[('same', 'self.wf1()'), ('same', 'self.same_but_scan(old(self))'),
              ('same', 'old(self).pos() <= self.pos()'),
              ('same', 'old(self).pos() < n(old(self).h()) - 1 ==> self.pos() < nx(old(self).h(), old(self).pos())'),
],
              dec='n(self.h()) - self.pos()', pre='',
              top='proof { let h = old(self).h(); let i = self.pos() + 1; ax_cmts(h, i); '
                  'if i < nx(h, old(self).pos()) { ax_nx_skip(h, old(self).pos(), i); } if i < n(h) { ax_span0(h, i); if i >= 1 { ax_span_lt(h, i - 1, i); } if 0 <= old(self).pos() < i { ax_span_lt(h, old(self).pos(), i); } } }')}),
    'expect_punct': {'+pre': 'proof { if ON_POS { reveal(tpos); } }', '+ens': E('ON_POS && r is Err ==> (r->Err_0 matches Error::UnexpectedToken(p, _) ==> p == tpos(old(self).h(), old(self).pos()))', 'pos') + E('cov_eq(final(self), old(self)) && ctx_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog', 'same') + E('r is Ok ==> tk(old(self).h(), old(self).pos()) == Token::Punct($P0) && final(self).pos() == nx(old(self).h(), old(self).pos()) && !final(self).found_eof && final(self).context.has_line_term == nl(final(self).h(), final(self).pos())', 'next')},
    'expect_keyword': {'+pre': 'proof { if ON_POS { reveal(tpos); } }', '+ens': E('ON_POS && r is Err ==> (r->Err_0 matches Error::UnexpectedToken(p, _) ==> p == tpos(old(self).h(), old(self).pos()))', 'pos') + E('cov_eq(final(self), old(self)) && ctx_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog', 'same') + E('r is Ok ==> tk(old(self).h(), old(self).pos()) == Token::Keyword($P0) && final(self).pos() == nx(old(self).h(), old(self).pos()) && !final(self).found_eof && final(self).context.has_line_term == nl(final(self).h(), final(self).pos())', 'next')},
    'at_punct': {'ens': E('r == (tk(self.h(), self.pos()) == Token::Punct($P0))')},
    'at_keyword': {'ens': E('r == (tk(self.h(), self.pos()) == Token::Keyword($P0))')},
    'is_prop_name': dict(req=E('key_ok(*$P0)')),
    'parse_object_property_key': {'+ens': E('r is Ok ==> key_ok(r->Ok_0)', 'lit')},
    'is_restricted_word': pure('r == ($P0@ == "eval"@ || $P0@ == "arguments"@)'),
    'get_string': dict(pre='proof { reveal(wfp); }', req=[('wf','self.scanner.stream@ == src(self.h())')], ens=E('slice_ok(src(self.h()), $P0.start as int, $P0.end as int) ==> r is Ok && r->Ok_0@ == substr(src(self.h()), $P0.start as int, $P0.end as int)')),
    'wf_stream': {}, 'at_contextual_keyword': {'pre': 'proof { reveal(wfp); }', 'ens': E('r == (txt(self.h(), self.pos()) == $P0@)')},
    'expected_token_error': dict(req=[('wf', 'self.wf()'), ('pos', 'ON_POS ==> tok_of(self, *$P0)')], pre=ERRP, ens=E('r is Err') + E('ON_POS ==> err_ok(self, r->Err_0) && (r->Err_0 matches Error::UnexpectedToken(p, _) && p == pos_of(lc(src(self.h()), $P0.span.start as int)))', 'pos')),
    'unexpected_token_error': dict(req=[('wf', 'self.wf()'), ('pos', 'ON_POS ==> tok_of(self, *$P0)')], pre=ERRP, ens=E('r is Err') + E('ON_POS ==> err_ok(self, r->Err_0) && (r->Err_0 matches Error::UnexpectedToken(p, _) && p == pos_of(lc(src(self.h()), $P0.span.start as int)))', 'pos')),
    'op_error': dict(req=[], ens=E('r is OperationError && r->OperationError_0 == self.current_position', 'pos')),
    'redecl_error': dict(req=[], ens=E('r is Redecl && r->Redecl_0 == self.current_position', 'pos')),
    'reinterpret_error': dict(req=[], ens=E('r is UnableToReinterpret && r->UnableToReinterpret_0 == self.current_position', 'pos')),
    'reinterpret_expr_as_pat': {'+req': [('pos', 'ON_POS ==> begun(self)')], '+ens': E('ON_POS && r is Err ==> err_ok(self, r->Err_0)', 'pos')},
    'at_possible_ident': {'+ens': E('r ==> !(tk(self.h(), self.pos()) is EoF)')},
    'tolerate_error': dict(ens=E('r is Ok <==> self.tol()') + E('r is Err ==> r->Err_0 == $P0', 'pos')),
    'contains_line_term': dict(pure('r == has_lt($P0@)'), loops={0: dict(inv=E('forall|k: int| 0 <= k < $IT.index@ ==> !is_lt(#[trigger] $P0@[k])'))}),
    'get_lines': dict(ens=E('1 <= r@.len() <= 0x8000_0000_0000_0000') + E('lines_ok(r@, $P0@)'), pre='proof { reveal(lines_ok); reveal(lines_to); }',
        loops={0: dict(inv=E('$SRC@ == $P0@ && bo($P0@, $P0@.len() as int) <= 0x8000_0000_0000_0000') + E('line_start == lst($P0@, $IT.index@)') + E('byte_position == bo($P0@, $IT.index@)') + E('lines_to($PUSH0, $P0@, $IT.index@)'),
            post='proof { let s = $P0@; let m = s.len() as int; lemma_ul(s, 0, m); lemma_ul(s, m, m); assert forall|j: int| #![trigger eol(s, j)] 0 <= j < m && eol(s, j) implies 0 <= lno(s, j) < lno(s, m) by { lemma_ul(s, j + 1, m); lemma_ul(s, j, j); } }',
            top='proof { let s = $P0@; let k = $IT.index@; reveal(lines_to); lemma_ul(s, k, k + 1); lemma_ul(s, k + 1, s.len() as int); assert(bo(s, k + 1) == bo(s, k) + ul(s[k])); assert(eol(s, k) || !eol(s, k)); '
                'assert forall|j: int| 0 <= j < k implies #[trigger] lno(s, j) <= lno(s, k) by { lemma_ul(s, j, k); } '
                'assert forall|j: int| #![trigger eol(s, j)] 0 <= j < k && eol(s, j) implies lno(s, j) < lno(s, k) by { lemma_ul(s, j + 1, k); } }')}),
    'update_positions': dict(req=[('wf', '1 <= old(self).lines@.len() <= 0x8000_0000_0000_0000'), ('pos', 'ON_POS ==> lines_ok(old(self).lines@, src(old(self).h()))')], ens=E('core_eq0(final(self), old(self)) && ctx_eq(final(self), old(self)) && cov_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog')
        + E('final(self).current_position == old(self).look_ahead_position', 'pos') + E('ON_POS && cb(src(old(self).h()), $P0.span.start as int) ==> final(self).look_ahead_position == pos_of(lc(src(old(self).h()), $P0.span.start as int))', 'pos')),
    'get_item_position': dict(req=[('wf', '1 <= self.lines@.len() <= 0x8000_0000_0000_0000'), ('pos', 'ON_POS ==> lines_ok(self.lines@, src(self.h()))')],
        pre='proof { if ON_POS && cb(src(self.h()), $P0.span.start as int) { assert forall|r: int| 0 <= r < self.lines@.len() && (r > 0 ==> #[trigger] self.lines@[r - 1].end < $P0.span.start) && (r + 1 < self.lines@.len() ==> $P0.span.start <= (#[trigger] self.lines@[r]).end) implies lc(src(self.h()), $P0.span.start as int) == (r + 1, $P0.span.start - self.lines@[r].start) && self.lines@[r].start <= $P0.span.start by { lemma_find(self.lines@, src(self.h()), $P0.span.start as int, r); } } }',
        ens=E('ON_POS && cb(src(self.h()), $P0.span.start as int) ==> r == pos_of(lc(src(self.h()), $P0.span.start as int))', 'pos'),
        nested={'search': ' requires lines@.len() >= 1, index + lines@.len() <= usize::MAX ensures index <= r.0 < index + lines@.len(), r.1 == lines@[r.0 - index], (/*@tag:pos*/ ON_POS && r.0 > index ==> lines@[r.0 - index - 1].end < item.span.start), (/*@tag:pos*/ ON_POS && r.0 - index + 1 < lines@.len() ==> item.span.start <= lines@[r.0 - index].end) decreases lines@.len() '}),
    'new': dict(ens=E('r is Ok ==> r->Ok_0.wf()', 'wf') + E('r is Ok ==> started(&r->Ok_0, $P0@, false, false)')),
    'build': dict(req=E('fresh($P2, $P3@)', 'wf') + E('ON_COMMENTS && CH::records() ==> $P4.log() == $P4.base()', 'wf'), ens=E('r is Ok && (ON_G ==> !$P0) ==> r->Ok_0.wf()', 'wf') + E('r is Ok ==> started(&r->Ok_0, src($P2.st@.h), $P0, $P1)')),
    '_new': dict(req=E('fresh($P0, $P1@)', 'wf') + E('ON_COMMENTS && CH::records() ==> $P4.log() == $P4.base()', 'wf'), pre='proof { reveal(wfp); ax_len($P0.st@.h); ax_cmts($P0.st@.h, -1); }',
                 ens=E('r is Ok && (ON_G ==> !$P2.tolerant) ==> r->Ok_0.wf()', 'wf') + E('r is Ok && ctx0($P3, $P3.is_module) ==> started(&r->Ok_0, src($P0.st@.h), $P2.tolerant, $P3.is_module)')),
    'Builder::with_comment_handler': dict(req=E('ON_COMMENTS && CH::records() ==> $P0.log() == $P0.base()', 'wf'), ens=E('r is Ok && (ON_G ==> !self.tolerant) ==> r->Ok_0.wf()', 'wf') + E('r is Ok ==> started(&r->Ok_0, self.js@, self.tolerant, self.is_module)')),
    'Builder::build': dict(ens=E('r is Ok && (ON_G ==> !self.tolerant) ==> r->Ok_0.wf()', 'wf') + E('r is Ok ==> started(&r->Ok_0, self.js@, self.tolerant, self.is_module)')),
    'parse': {'pre': 'proof { reveal(wfp); }', '+ens': E('ON_COMMENTS && CH::records() && r is Ok ==> final(self).comment_handler.log() == old(self).comment_handler.base() + cmts(old(self).h(), n(old(self).h()) - 1)', 'comments') + E('r is Ok ==> (r->Ok_0 is Mod) == old(self).ismod() && tk(final(self).h(), final(self).pos()) is EoF')},
    'Iterator::next': {'pre': 'proof { reveal(wfp); }', 'ens': [('pos', 'ON_POS ==> (r matches Some(Err(e)) ==> err_ok(final(self), e))'), ('frame', 'fr0(old(self), final(self))'), WF, ('ctx', '!(r matches Some(Err(_))) ==> cx_ns(old(self).cx(), final(self).cx())'), ('progress', 'final(self).mu() <= old(self).mu()'), ('progress', 'r is Some ==> final(self).mu() < old(self).mu()'),
        ('next', 'r is None <==> tk(old(self).h(), old(self).pos()) is EoF'), ('next', 'r is None ==> final(self).pos() == old(self).pos()')], 'dec': 'old(self).mu(), %dint' % rank('Iterator::next')},
    'set_isolate_cover_grammar_state': dict(ens=E('core_eq(final(self), old(self)) && ctx_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog && final(self).context.is_binding_element == $P0 && final(self).context.is_assignment_target == $P1')+E('r is Ok'), dec=None),
    'isolate_cover_grammar': dict(ens=E('core_eq(final(self), old(self)) && ctx_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog && final(self).context.is_binding_element && final(self).context.is_assignment_target')+E('r.0 == old(self).context.is_binding_element && r.1 == old(self).context.is_assignment_target && r.2 == old(self).context.first_covert_initialized_name_error'), dec=None),
    'inherit_cover_grammar': dict(ens=E('core_eq(final(self), old(self)) && ctx_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog && final(self).context.is_binding_element && final(self).context.is_assignment_target')+E('r.0 == old(self).context.is_binding_element && r.1 == old(self).context.is_assignment_target && r.2 == old(self).context.first_covert_initialized_name_error'), dec=None),
    'get_cover_grammar_state': dict(ens=E('r.0 == self.context.is_binding_element && r.1 == self.context.is_assignment_target && r.2 == self.context.first_covert_initialized_name_error')),
    'set_inherit_cover_grammar_state': dict(ens=E('final(self).context.is_binding_element == (old(self).context.is_binding_element && $P0) && final(self).context.is_assignment_target == (old(self).context.is_assignment_target && $P1)')+
        E('core_eq(final(self), old(self)) && ctx_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog'), dec=None),
    'parse_binary_expression': {'loops': {0: {'+inv': E('precs@.len() == ops@.len() && stack@.len() == ops@.len() + 1') + E('forall|q: int| 0 <= q < stack@.len() ==> lit_ok(#[trigger] stack@[q])', 'lit')},
        1: {'+inv': E('precs@.len() == ops@.len() && stack@.len() == ops@.len() + 1') + E('forall|q: int| 0 <= q < stack@.len() ==> lit_ok(#[trigger] stack@[q])', 'lit'), 'dec': 'ops@.len()'},
        2: {'+inv': E('stack@.len() == ops@.len()') + E('lit_ok(current) && forall|q: int| 0 <= q < stack@.len() ==> lit_ok(#[trigger] stack@[q])', 'lit'), 'dec': 'ops@.len()'}}},
    'at_import_call': {'+ens': E('final(self).pos() == old(self).pos() && ctx_eq(final(self), old(self)) && cov_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog && final(self).context.has_line_term == old(self).context.has_line_term'), 'pre': 'proof { reveal(wfp); }'},
    'at_lexical_decl': {'+ens': E('final(self).pos() == old(self).pos() && ctx_eq(final(self), old(self)) && cov_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog && final(self).context.has_line_term == old(self).context.has_line_term'), 'pre': 'proof { reveal(wfp); }'},
    'at_async_function': {'+ens': E('final(self).pos() == old(self).pos() && ctx_eq(final(self), old(self)) && cov_eq(final(self), old(self)) && final(self).context.past_prolog == old(self).context.past_prolog && final(self).context.has_line_term == old(self).context.has_line_term'), 'pre': 'proof { reveal(wfp); }'},
    'parse_left_hand_side_expr': {'loops': {0: {'+inv': E('lit_ok($ASG0)', 'lit')}}},
    'parse_left_hand_side_expr_allow_call': {'rlimit': 120, 'loops': {0: {'+inv': E('lit_ok($ASG0)', 'lit')}}},
    'parse_for_stmt_rest': dict(rlimit=150),
})
