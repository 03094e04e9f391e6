// ---- grammar of statements, imports and exports ----
pub mod g3 {
use super::*;
pub uninterp spec fn R_Stmt(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool;
/// inside a loop, a switch, a statement labelled l
pub open spec fn c_iter(c: Cx) -> Cx { if ON_EARLY { Cx { in_iter: true, ..c } } else { c } }
pub open spec fn c_sw(c: Cx) -> Cx { if ON_EARLY { Cx { in_switch: true, ..c } } else { c } }
pub open spec fn c_lab(c: Cx, l: Seq<char>) -> Cx { if ON_EARLY { Cx { labels: c.labels.insert(label_key(l)), ..c } } else { c } }
/// e `)` s
pub open spec fn e_par(h: int, c: Cx, cb: Cx, a: int, e: Expr, s: Stmt, b: int) -> bool {
    exists|k: int| #[trigger] R_Expr(h, c, a, e, k) && pu(h, k, Punct::CloseParen) && R_Stmt(h, cb, nx(h, k), s, b)
}
#[verifier::opaque]
pub open spec fn R_With(h: int, c: Cx, a: int, w: WithStmt, b: int) -> bool {
    kw(h, a, Keyword::With) && pu(h, nx(h, a), Punct::OpenParen) && (ON_STRICT ==> !c.strict) && e_par(h, c, c, nx(h, nx(h, a)), w.object, *w.body, b)
}
#[verifier::opaque]
pub open spec fn R_While(h: int, c: Cx, a: int, w: WhileStmt, b: int) -> bool {
    kw(h, a, Keyword::While) && pu(h, nx(h, a), Punct::OpenParen) && e_par(h, c, c_iter(c), nx(h, nx(h, a)), w.test, *w.body, b)
}
pub open spec fn do_cond(h: int, c: Cx, a: int, e: Expr, b: int) -> bool {
    exists|m: int| #[trigger] R_Expr(h, c, a, e, m) && pu(h, m, Punct::CloseParen) && b == if pu(h, nx(h, m), Punct::SemiColon) { nx(h, nx(h, m)) } else { nx(h, m) }
}
pub open spec fn do_tail(h: int, c: Cx, cb: Cx, a: int, e: Expr, s: Stmt, b: int) -> bool {
    exists|k: int| #[trigger] R_Stmt(h, cb, a, s, k) && kw(h, k, Keyword::While) && pu(h, nx(h, k), Punct::OpenParen) && do_cond(h, c, nx(h, nx(h, k)), e, b)
}
#[verifier::opaque]
pub open spec fn R_Do(h: int, c: Cx, a: int, w: DoWhileStmt, b: int) -> bool {
    kw(h, a, Keyword::Do) && do_tail(h, c, c_iter(c), nx(h, a), w.test, *w.body, b)
}
#[verifier::opaque]
pub open spec fn R_IfCl(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool {
    R_Stmt(h, c, a, s, b) && (ON_STRICT && c.strict ==> !kw(h, a, Keyword::Function))
}
pub open spec fn if_else(h: int, c: Cx, a: int, s: Stmt, t: Stmt, b: int) -> bool {
    exists|m: int| #[trigger] R_IfCl(h, c, a, s, m) && kw(h, m, Keyword::Else) && R_IfCl(h, c, nx(h, m), t, b)
}
pub open spec fn if_arms(h: int, c: Cx, a: int, s: Stmt, t: Option<Box<Stmt>>, b: int) -> bool {
    match t { None => R_IfCl(h, c, a, s, b) && !kw(h, b, Keyword::Else), Some(t) => if_else(h, c, a, s, *t, b) }
}
pub open spec fn if_tail(h: int, c: Cx, a: int, e: Expr, s: Stmt, t: Option<Box<Stmt>>, b: int) -> bool {
    exists|k: int| #[trigger] R_Expr(h, c, a, e, k) && pu(h, k, Punct::CloseParen) && if_arms(h, c, nx(h, k), s, t, b)
}
#[verifier::opaque]
pub open spec fn R_If(h: int, c: Cx, a: int, s: IfStmt, b: int) -> bool {
    kw(h, a, Keyword::If) && pu(h, nx(h, a), Punct::OpenParen) && if_tail(h, c, nx(h, nx(h, a)), s.test, *s.consequent, s.alternate, b)
}
// ---- declarations ----
/// the binding stands where a for-in or for-of head goes on
pub open spec fn at_for(h: int, f: int, m: int) -> bool { f == 1 && (kw(h, m, Keyword::In) || cw(h, m, "of"@)) }
pub open spec fn init_ok(h: int, c: Cx, k: VariableKind, f: int, m: int, p: Pat, i: Option<Expr>, b: int) -> bool {
    match i {
        Some(e) => pu(h, m, Punct::Assign) && R_Assign(h, c, nx(h, m), e, b),
        None => b == m && (at_for(h, f, m) || !pu(h, m, Punct::Assign)) && (ON_EARLY ==> f == 2 || p is Identifier && !(k is Const) || at_for(h, f, m)),
    }
}
pub open spec fn decl_x(h: int, c: Cx, k: VariableKind, f: int, a: int, p: Pat, i: Option<Expr>, b: int) -> bool {
    exists|m: int| #[trigger] R_Pat(h, c, a, p, m) && init_ok(h, c, k, f, m, p, i, b)
}
/// one declarator of a declaration of kind k; f == 1 in the head of a for statement, f == 2 where the code leaves
/// the missing initialiser to the caller (no caller does: only f == 0 and f == 1 occur in the rules of statements)
#[verifier::opaque]
pub open spec fn R_Decl(h: int, c: Cx, k: VariableKind, f: int, a: int, d: VariableDecl, b: int) -> bool {
    (!(k is Var) ==> !kw(h, a, Keyword::Let)) && decl_x(h, c, k, f, a, d.id, d.init, b)
}
#[verifier::opaque]
pub open spec fn L_Decls(h: int, c: Cx, k: VariableKind, f: int, a: int, s: Seq<VariableDecl>, b: int) -> bool decreases s.len() {
    if s.len() == 0 { false }
    else if s.len() == 1 { R_Decl(h, c, k, f, a, s[0], b) }
    else { exists|m: int| #[trigger] tr(m) && L_Decls(h, c, k, f, a, s.drop_last(), m) && pu(h, m, Punct::Comma) && R_Decl(h, c, k, f, nx(h, m), s.last(), b) }
}
pub broadcast proof fn lemma_Decls1(h: int, c: Cx, k: VariableKind, f: int, a: int, d: VariableDecl, b: int)
    requires #[trigger] R_Decl(h, c, k, f, a, d, b) ensures L_Decls(h, c, k, f, a, seq![d], b)
{ reveal(L_Decls); assert(seq![d].len() == 1); assert(seq![d][0] == d); }
pub broadcast proof fn lemma_Decls2(h: int, c: Cx, k: VariableKind, f: int, a: int, s: Seq<VariableDecl>, m: int, d: VariableDecl, b: int)
    requires #[trigger] L_Decls(h, c, k, f, a, s, m), pu(h, m, Punct::Comma), #[trigger] R_Decl(h, c, k, f, nx(h, m), d, b) ensures L_Decls(h, c, k, f, a, s.push(d), b)
{ reveal(L_Decls); assert(s.push(d).drop_last() =~= s); assert(s.push(d).last() == d); assert(tr(m) && L_Decls(h, c, k, f, a, s.push(d).drop_last(), m)); }
pub broadcast proof fn lemma_Decls3(h: int, c: Cx, k: VariableKind, f: int, a: int, s: Seq<VariableDecl>, b: int)
    requires #[trigger] L_Decls(h, c, k, f, a, s, b) ensures s.len() >= 1, s.len() == 1 ==> R_Decl(h, c, k, f, a, s[0], b)
{ reveal(L_Decls); }
pub broadcast proof fn lemma_lab(s: Set<Seq<char>>, k: Seq<char>)
    requires !s.contains(k) ensures #[trigger] s.insert(k).remove(k) == s
{ assert(s.insert(k).remove(k) =~= s); }
//@broadcast g3::lemma_lab
//@broadcast g3::lemma_Decls1, g3::lemma_Decls2, g3::lemma_Decls3
/// declarators of a whole declaration
pub open spec fn R_Decls(h: int, c: Cx, k: VariableKind, f: int, a: int, s: Seq<VariableDecl>, b: int) -> bool {
    L_Decls(h, c, k, f, a, s, b) && !pu(h, b, Punct::Comma)
}
pub open spec fn decls_semi(h: int, c: Cx, k: VariableKind, a: int, s: Seq<VariableDecl>, b: int) -> bool {
    exists|m: int| #[trigger] L_Decls(h, c, k, 0, a, s, m) && !pu(h, m, Punct::Comma) && semi(h, m, b)
}
pub open spec fn kwk(h: int, a: int, k: VariableKind) -> bool {
    match k { VariableKind::Var => kw(h, a, Keyword::Var), VariableKind::Let => kw(h, a, Keyword::Let), VariableKind::Const => kw(h, a, Keyword::Const) }
}
#[verifier::opaque]
pub open spec fn R_Lex(h: int, c: Cx, a: int, d: Decl, b: int) -> bool {
    d matches Decl::Variable(k, v) && !(k is Var) && kwk(h, a, k) && decls_semi(h, c, k, nx(h, a), v@, b)
}
#[verifier::opaque]
pub open spec fn R_VarStmt(h: int, c: Cx, a: int, v: Seq<VariableDecl>, b: int) -> bool {
    kw(h, a, Keyword::Var) && decls_semi(h, c, VariableKind::Var, nx(h, a), v, b)
}
// ---- simple statements ----
pub open spec fn e_semi(h: int, c: Cx, a: int, e: Expr, b: int) -> bool { exists|m: int| #[trigger] R_Expr(h, c, a, e, m) && semi(h, m, b) }
#[verifier::opaque]
pub open spec fn R_Return(h: int, c: Cx, a: int, x: Option<Expr>, b: int) -> bool {
    kw(h, a, Keyword::Return) && (ON_EARLY ==> c.in_fn) && match x {
        None => semi(h, nx(h, a), b) && (nl(h, nx(h, a)) || pu(h, nx(h, a), Punct::SemiColon) || pu(h, nx(h, a), Punct::CloseBrace) || tk(h, nx(h, a)) is EoF),
        Some(e) => !brk(h, nx(h, a)) && e_semi(h, c, nx(h, a), e, b),
    }
}
#[verifier::opaque]
pub open spec fn R_Throw(h: int, c: Cx, a: int, e: Expr, b: int) -> bool { kw(h, a, Keyword::Throw) && !brk(h, nx(h, a)) && e_semi(h, c, nx(h, a), e, b) }
/// break or continue (k)
#[verifier::opaque]
pub open spec fn R_Jump(h: int, c: Cx, k: Keyword, a: int, x: Option<Identifier>, b: int) -> bool {
    kw(h, a, k) && match x {
        None => semi(h, nx(h, a), b) && (!(tk(h, nx(h, a)) is Ident) || nl(h, nx(h, a))) && (ON_EARLY ==> c.in_iter || c.in_switch && k == Keyword::Break),
        Some(i) => tk(h, nx(h, a)) is Ident && !brk(h, nx(h, a)) && i@ == txt(h, nx(h, a)) && semi(h, nx(h, nx(h, a)), b) && (ON_EARLY ==> c.labels.contains(label_key(i@))),
    }
}
#[verifier::opaque]
pub open spec fn R_ExprStmt(h: int, c: Cx, a: int, e: Expr, b: int) -> bool { e_semi(h, c, a, e, b) }
// ---- blocks, try, switch ----
pub open spec fn blk(h: int, c: Cx, a: int, s: Seq<ProgramPart>, b: int) -> bool { exists|m: int| #[trigger] L_Items(h, c, a, s, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) }
#[verifier::opaque]
pub open spec fn R_Block(h: int, c: Cx, a: int, s: Seq<ProgramPart>, b: int) -> bool { pu(h, a, Punct::OpenBrace) && blk(h, c, nx(h, a), s, b) }
pub open spec fn catch_p(h: int, c: Cx, a: int, p: Pat, s: Seq<ProgramPart>, b: int) -> bool {
    exists|m: int| #[trigger] R_Pat(h, c, a, p, m) && pu(h, m, Punct::CloseParen) && R_Block(h, c, nx(h, m), s, b)
}
#[verifier::opaque]
pub open spec fn R_Catch(h: int, c: Cx, a: int, q: CatchClause, b: int) -> bool {
    kw(h, a, Keyword::Catch) && match q.param {
        None => !pu(h, nx(h, a), Punct::OpenParen) && R_Block(h, c, nx(h, a), q.body@, b),
        Some(p) => pu(h, nx(h, a), Punct::OpenParen) && catch_p(h, c, nx(h, nx(h, a)), p, q.body@, b),
    }
}
#[verifier::opaque]
pub open spec fn R_Finally(h: int, c: Cx, a: int, s: Seq<ProgramPart>, b: int) -> bool { kw(h, a, Keyword::Finally) && R_Block(h, c, nx(h, a), s, b) }
pub open spec fn try_f(h: int, c: Cx, a: int, f: Option<BlockStmt>, b: int) -> bool {
    match f { None => b == a && !kw(h, a, Keyword::Finally), Some(v) => R_Finally(h, c, a, v@, b) }
}
pub open spec fn try_c(h: int, c: Cx, a: int, q: CatchClause, f: Option<BlockStmt>, b: int) -> bool { exists|m: int| #[trigger] R_Catch(h, c, a, q, m) && try_f(h, c, m, f, b) }
pub open spec fn try_h(h: int, c: Cx, a: int, q: Option<CatchClause>, f: Option<BlockStmt>, b: int) -> bool {
    match q { None => !kw(h, a, Keyword::Catch) && try_f(h, c, a, f, b), Some(x) => try_c(h, c, a, x, f, b) }
}
pub open spec fn try_b(h: int, c: Cx, a: int, s: Seq<ProgramPart>, q: Option<CatchClause>, f: Option<BlockStmt>, b: int) -> bool {
    exists|k: int| #[trigger] R_Block(h, c, a, s, k) && try_h(h, c, k, q, f, b)
}
#[verifier::opaque]
pub open spec fn R_Try(h: int, c: Cx, a: int, t: TryStmt, b: int) -> bool {
    kw(h, a, Keyword::Try) && try_b(h, c, nx(h, a), t.block@, t.handler, t.finalizer, b) && (ON_EARLY ==> t.handler is Some || t.finalizer is Some)
}
pub open spec fn case_b(h: int, c: Cx, a: int, s: Seq<ProgramPart>, b: int) -> bool {
    L_Items(h, c, a, s, b) && (pu(h, b, Punct::CloseBrace) || kw(h, b, Keyword::Default) || kw(h, b, Keyword::Case))
}
pub open spec fn case_t(h: int, c: Cx, a: int, e: Expr, s: Seq<ProgramPart>, b: int) -> bool {
    exists|k: int| #[trigger] R_Expr(h, c, a, e, k) && pu(h, k, Punct::Colon) && case_b(h, c, nx(h, k), s, b)
}
#[verifier::opaque]
pub open spec fn R_Case(h: int, c: Cx, a: int, x: SwitchCase, b: int) -> bool {
    match x.test {
        None => kw(h, a, Keyword::Default) && pu(h, nx(h, a), Punct::Colon) && case_b(h, c, nx(h, nx(h, a)), x.consequent@, b),
        Some(e) => kw(h, a, Keyword::Case) && case_t(h, c, nx(h, a), e, x.consequent@, b),
    }
}
pub open spec fn el_Cases(h: int, c: Cx, m: int, x: SwitchCase, b: int) -> bool { R_Case(h, c, m, x, b) }
//@list g3 Cases SwitchCase
pub broadcast proof fn lemma_Cases1(h: int, c: Cx, a: int, s: Seq<SwitchCase>, m: int, x: SwitchCase, b: int)
    requires #[trigger] L_Cases(h, c, a, s, m), #[trigger] R_Case(h, c, m, x, b) ensures L_Cases(h, c, a, s.push(x), b)
{ list_Cases_p(h, c, a, s, m, x, b); }
pub open spec fn n_default(s: Seq<SwitchCase>) -> int decreases s.len() { if s.len() == 0 { 0 } else { n_default(s.drop_last()) + if s.last().test is None { 1int } else { 0int } } }
pub broadcast proof fn lemma_n_default(s: Seq<SwitchCase>, x: SwitchCase) ensures #[trigger] n_default(s.push(x)) == n_default(s) + if x.test is None { 1int } else { 0int }
{ assert(s.push(x).drop_last() =~= s); }
//@broadcast g3::lemma_Cases1, g3::lemma_n_default
pub open spec fn sw_body(h: int, c: Cx, a: int, s: Seq<SwitchCase>, b: int) -> bool { exists|m: int| #[trigger] L_Cases(h, c, a, s, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) }
pub open spec fn sw_head(h: int, c: Cx, cs: Cx, a: int, e: Expr, s: Seq<SwitchCase>, b: int) -> bool {
    exists|k: int| #[trigger] R_Expr(h, c, a, e, k) && pu(h, k, Punct::CloseParen) && pu(h, nx(h, k), Punct::OpenBrace) && sw_body(h, cs, nx(h, nx(h, k)), s, b)
}
#[verifier::opaque]
pub open spec fn R_Switch(h: int, c: Cx, a: int, s: SwitchStmt, b: int) -> bool {
    kw(h, a, Keyword::Switch) && pu(h, nx(h, a), Punct::OpenParen) && sw_head(h, c, c_sw(c), nx(h, nx(h, a)), s.discriminant, s.cases@, b) && (ON_EARLY ==> n_default(s.cases@) <= 1)
}
// ---- for statements ----
/// `)` and the body of a loop
#[verifier::opaque]
pub open spec fn R_LBody(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool { pu(h, a, Punct::CloseParen) && R_Stmt(h, c_iter(c), nx(h, a), s, b) }
pub open spec fn e_body(h: int, c: Cx, a: int, e: Expr, s: Stmt, b: int) -> bool { exists|k: int| #[trigger] R_Expr(h, c, a, e, k) && R_LBody(h, c, k, s, b) }
pub open spec fn a_body(h: int, c: Cx, a: int, e: Expr, s: Stmt, b: int) -> bool { exists|k: int| #[trigger] R_Assign(h, c, a, e, k) && R_LBody(h, c, k, s, b) }
pub open spec fn for_upd(h: int, c: Cx, a: int, u: Option<Expr>, s: Stmt, b: int) -> bool {
    pu(h, a, Punct::SemiColon) && match u { None => R_LBody(h, c, nx(h, a), s, b), Some(e) => e_body(h, c, nx(h, a), e, s, b) }
}
pub open spec fn for_test(h: int, c: Cx, a: int, e: Expr, u: Option<Expr>, s: Stmt, b: int) -> bool { exists|k: int| #[trigger] R_Expr(h, c, a, e, k) && for_upd(h, c, k, u, s, b) }
/// a for statement from its first semicolon on
#[verifier::opaque]
pub open spec fn R_ForCont(h: int, c: Cx, a: int, t: Option<Expr>, u: Option<Expr>, s: Stmt, b: int) -> bool {
    pu(h, a, Punct::SemiColon) && match t { None => for_upd(h, c, nx(h, a), u, s, b), Some(e) => for_test(h, c, nx(h, a), e, u, s, b) }
}
pub broadcast proof fn lemma_For1(h: int, c: Cx, ci: Cx, a: int, e: Expr, m: int, t: Option<Expr>, u: Option<Expr>, s: Stmt, b: int)
    requires #[trigger] R_Assign(h, ci, a, e, m), #[trigger] R_ForCont(h, c, m, t, u, s, b) ensures R_Expr(h, ci, a, e, m)
{ reveal(R_ForCont); reveal(R_Expr); }
pub broadcast proof fn lemma_For2(h: int, c: Cx, ci: Cx, a: int, v: Vec<Expr>, m: int, t: Option<Expr>, u: Option<Expr>, s: Stmt, b: int)
    requires #[trigger] L_Exprs(h, ci, a, v@, m), v@.len() >= 2, #[trigger] R_ForCont(h, c, m, t, u, s, b) ensures R_Expr(h, ci, a, Expr::Sequence(v), m)
{ reveal(R_ForCont); reveal(R_Expr); }
//@broadcast g3::lemma_For1, g3::lemma_For2
pub open spec fn for_v(h: int, c: Cx, ci: Cx, k: VariableKind, a: int, v: Seq<VariableDecl>, t: Option<Expr>, u: Option<Expr>, s: Stmt, b: int) -> bool {
    exists|m: int| #[trigger] L_Decls(h, ci, k, 1, a, v, m) && R_ForCont(h, c, m, t, u, s, b)
}
pub open spec fn for_e(h: int, c: Cx, ci: Cx, a: int, e: Expr, t: Option<Expr>, u: Option<Expr>, s: Stmt, b: int) -> bool {
    exists|m: int| #[trigger] R_Expr(h, ci, a, e, m) && R_ForCont(h, c, m, t, u, s, b)
}
pub open spec fn for_c(h: int, c: Cx, a: int, i: Option<LoopInit>, t: Option<Expr>, u: Option<Expr>, s: Stmt, b: int) -> bool {
    match i {
        None => R_ForCont(h, c, a, t, u, s, b),
        Some(LoopInit::Variable(k, v)) => kwk(h, a, k) && for_v(h, c, c_in(c, false), k, nx(h, a), v@, t, u, s, b),
        Some(LoopInit::Expr(e)) => for_e(h, c, c_in(c, false), a, e, t, u, s, b),
    }
}
#[verifier::opaque]
pub open spec fn R_InTail(h: int, c: Cx, a: int, e: Expr, s: Stmt, b: int) -> bool { kw(h, a, Keyword::In) && e_body(h, c, nx(h, a), e, s, b) }
#[verifier::opaque]
pub open spec fn R_OfTail(h: int, c: Cx, a: int, e: Expr, s: Stmt, b: int) -> bool { cw(h, a, "of"@) && a_body(h, c, nx(h, a), e, s, b) }
pub open spec fn in_v(h: int, c: Cx, ci: Cx, k: VariableKind, a: int, d: VariableDecl, e: Expr, s: Stmt, b: int) -> bool {
    exists|m: int| #[trigger] R_Decl(h, ci, k, 1, a, d, m) && R_InTail(h, c, m, e, s, b)
}
pub open spec fn in_e(h: int, c: Cx, ci: Cx, a: int, l: Expr, e: Expr, s: Stmt, b: int) -> bool {
    head_tgt(h, ci, a, l) && exists|m: int| #[trigger] R_Assign(h, ci, a, l, m) && R_InTail(h, c, m, e, s, b)
}
pub open spec fn of_v(h: int, c: Cx, ci: Cx, k: VariableKind, a: int, d: VariableDecl, e: Expr, s: Stmt, b: int) -> bool {
    exists|m: int| #[trigger] R_Decl(h, ci, k, 1, a, d, m) && R_OfTail(h, c, m, e, s, b)
}
pub open spec fn of_e(h: int, c: Cx, ci: Cx, a: int, l: Expr, e: Expr, s: Stmt, b: int) -> bool {
    head_tgt(h, ci, a, l) && exists|m: int| #[trigger] R_Assign(h, ci, a, l, m) && R_OfTail(h, c, m, e, s, b)
}
pub open spec fn in_left(h: int, c: Cx, a: int, l: LoopLeft, e: Expr, s: Stmt, b: int) -> bool {
    match l {
        LoopLeft::Variable(k, d) => kwk(h, a, k) && (k is Var || d.init is None) && in_v(h, c, c_in(c, false), k, nx(h, a), d, e, s, b),
        LoopLeft::Expr(x) => {
            ||| kw(h, a, Keyword::Let) && is_id(x, "let"@) && (ON_STRICT ==> !c.strict) && R_InTail(h, c, nx(h, a), e, s, b)
            ||| in_e(h, c, c_in(c, false), a, x, e, s, b)
        },
        _ => false,
    }
}
pub open spec fn of_left(h: int, c: Cx, a: int, l: LoopLeft, e: Expr, s: Stmt, b: int) -> bool {
    match l {
        LoopLeft::Variable(k, d) => kwk(h, a, k) && (k is Var || d.init is None) && of_v(h, c, c_in(c, false), k, nx(h, a), d, e, s, b),
        LoopLeft::Expr(x) => of_e(h, c, c_in(c, false), a, x, e, s, b),
        _ => false,
    }
}
/// a for statement from its opening bracket on
#[verifier::opaque]
pub open spec fn R_ForRest(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool {
    pu(h, a, Punct::OpenParen) && match s {
        Stmt::For(f) => for_c(h, c, nx(h, a), f.init, f.test, f.update, *f.body, b),
        Stmt::ForIn(f) => in_left(h, c, nx(h, a), f.left, f.right, *f.body, b),
        Stmt::ForOf(f) => of_left(h, c, nx(h, a), f.left, f.right, *f.body, b),
        _ => false,
    }
}
pub open spec fn for_await(s: Stmt) -> bool { s matches Stmt::ForOf(f) && f.is_await }
#[verifier::opaque]
pub open spec fn R_For(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool {
    kw(h, a, Keyword::For) && if for_await(s) { kw(h, nx(h, a), Keyword::Await) && (ON_CTX ==> c.awt) && R_ForRest(h, c, nx(h, nx(h, a)), s, b) } else { R_ForRest(h, c, nx(h, a), s, b) }
}
// ---- labels and statements ----
pub open spec fn lab_b(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool {
    ||| R_Stmt(h, c, a, s, b)
    ||| kw(h, a, Keyword::Function) && (s matches Stmt::Expr(Expr::Function(f)) && R_FuncDecl(h, c, a, f, b))
}
pub open spec fn lab_x(h: int, c: Cx, cl: Cx, a: int, l: Seq<char>, s: Stmt, b: int) -> bool {
    exists|e: Expr, m: int| #[trigger] R_Expr(h, c, a, e, m) && is_id(e, l) && pu(h, m, Punct::Colon) && lab_b(h, cl, nx(h, m), s, b)
}
pub open spec fn nolab(h: int, c: Cx, a: int, e: Expr, b: int) -> bool { exists|m: int| #[trigger] R_Expr(h, c, a, e, m) && !(e is Ident && pu(h, m, Punct::Colon)) && semi(h, m, b) }
#[verifier::opaque]
pub open spec fn R_Labelled(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool {
    match s {
        Stmt::Labeled(l) => lab_x(h, c, c_lab(c, l.label@), a, l.label@, *l.body, b) && (ON_EARLY ==> !c.labels.contains(label_key(l.label@))),
        Stmt::Expr(e) => nolab(h, c, a, e, b),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn B_Stmt(h: int, c: Cx, a: int, s: Stmt, b: int) -> bool {
    match tk(h, a) {
        Token::Punct(Punct::OpenBrace) => s matches Stmt::Block(v) && R_Block(h, c, a, v@, b),
        Token::Punct(Punct::SemiColon) => s is Empty && b == nx(h, a),
        Token::Ident => {
            ||| cw(h, a, "async"@) && kw(h, nx(h, a), Keyword::Function) && (s matches Stmt::Expr(Expr::Function(f)) && R_FuncDecl(h, c, a, f, b))
            ||| R_Labelled(h, c, a, s, b)
        },
        Token::Keyword(k) => match k {
            Keyword::Break => s matches Stmt::Break(x) && R_Jump(h, c, k, a, x, b),
            Keyword::Continue => s matches Stmt::Continue(x) && R_Jump(h, c, k, a, x, b),
            Keyword::Debugger => s is Debugger && semi(h, nx(h, a), b),
            Keyword::Do => s matches Stmt::DoWhile(x) && R_Do(h, c, a, x, b),
            Keyword::For => R_For(h, c, a, s, b),
            Keyword::Function => s matches Stmt::Expr(Expr::Function(f)) && R_FuncDecl(h, c, a, f, b),
            Keyword::If => s matches Stmt::If(x) && R_If(h, c, a, x, b),
            Keyword::Return => s matches Stmt::Return(x) && R_Return(h, c, a, x, b),
            Keyword::Switch => s matches Stmt::Switch(x) && R_Switch(h, c, a, x, b),
            Keyword::Throw => s matches Stmt::Throw(x) && R_Throw(h, c, a, x, b),
            Keyword::Try => s matches Stmt::Try(x) && R_Try(h, c, a, x, b),
            Keyword::Var => s matches Stmt::Var(v) && R_VarStmt(h, c, a, v@, b),
            Keyword::While => s matches Stmt::While(x) && R_While(h, c, a, x, b),
            Keyword::With => s matches Stmt::With(x) && R_With(h, c, a, x, b),
            _ => s matches Stmt::Expr(e) && R_ExprStmt(h, c, a, e, b),
        },
        _ => s matches Stmt::Expr(e) && R_ExprStmt(h, c, a, e, b),
    }
}
pub broadcast axiom fn rule_Stmt(h: int, c: Cx, a: int, s: Stmt, b: int) requires B_Stmt(h, c, a, s, b) ensures #[trigger] R_Stmt(h, c, a, s, b);
/// a lexical declaration goes on with this token
pub open spec fn letnext(t: Token) -> bool { t is Ident || t == Token::Punct(Punct::OpenBracket) || t == Token::Punct(Punct::OpenBrace) || t == Token::Keyword(Keyword::Let) || t == Token::Keyword(Keyword::Yield) }
#[verifier::opaque]
pub open spec fn B_Item(h: int, c: Cx, a: int, p: ProgramPart, b: int) -> bool {
    match p {
        ProgramPart::Decl(Decl::Import(i)) => R_Import(h, c, a, *i, b),
        ProgramPart::Decl(Decl::Export(e)) => R_Export(h, c, a, *e, b),
        ProgramPart::Decl(Decl::Variable(k, v)) => R_Lex(h, c, a, Decl::Variable(k, v), b) && (k is Let ==> letnext(tk(h, nx(h, a)))),
        ProgramPart::Decl(Decl::Function(f)) => kw(h, a, Keyword::Function) && R_FuncDecl(h, c, a, f, b),
        ProgramPart::Decl(Decl::Class(k)) => k.id is Some && R_Class(h, c, a, k, b),
        ProgramPart::Stmt(s) => R_Stmt(h, c, a, s, b) && !kw(h, a, Keyword::Const) && !kw(h, a, Keyword::Function) && !kw(h, a, Keyword::Class) && !kw(h, a, Keyword::Export)
            && (kw(h, a, Keyword::Let) ==> !letnext(tk(h, nx(h, a)))) && (kw(h, a, Keyword::Import) ==> pu(h, nx(h, a), Punct::OpenParen)),
        _ => false,
    }
}
pub broadcast axiom fn rule_Item(h: int, c: Cx, a: int, p: ProgramPart, b: int) requires B_Item(h, c, a, p, b) ensures #[trigger] R_Item(h, c, a, p, b);
//@broadcast g3::rule_Stmt, g3::rule_Item
// ---- the program ----
pub open spec fn body_of(p: Program) -> Seq<ProgramPart> { match p { Program::Mod(v) => v@, Program::Script(v) => v@ } }
pub broadcast proof fn lemma_Prog1(h: int, c: Cx, a: int, s: Seq<ProgramPart>, m: int, c1: Cx, x: ProgramPart, b: int)
    requires #[trigger] L_Dirs(h, c, a, s, m), #[trigger] R_Item(h, c1, m, x, b), c1 == c_str(c, has_us(s)), !(tk(h, m) is String) || s.len() > 0 && !(s.last() is Dir)
    ensures L_Body(h, c, a, s.push(x), c1, b)
{ reveal(R_Prologue); assert(R_Prologue(h, c, a, s, c1, m)); lemma_Body0(h, c, a, s, c1, m); lemma_Body1(h, c, a, s, c1, m, x, b); }
pub broadcast proof fn lemma_Prog2(h: int, c: Cx, a: int, s: Seq<ProgramPart>, m: int, c1: Cx, x: ProgramPart, b: int)
    requires #[trigger] L_Dirs(h, c, a, s, m), #[trigger] R_Dir(h, c1, m, x, b), c1 == c_str(c, has_us(s)), s.len() > 0 ==> s.last() is Dir, !(x is Dir)
    ensures L_Body(h, c, a, s.push(x), c_str(c, has_us(s.push(x))), b)
{ reveal(R_Prologue); lemma_Dirs1(h, c, a, s, m, c1, x, b); let c2 = c_str(c, has_us(s.push(x))); assert(s.push(x).last() == x); assert(R_Prologue(h, c, a, s.push(x), c2, b)); lemma_Body0(h, c, a, s.push(x), c2, b); }
pub broadcast proof fn lemma_Prog3(h: int, c: Cx, a: int, s: Seq<ProgramPart>, m: int)
    requires #[trigger] L_Dirs(h, c, a, s, m), #[trigger] tk(h, m) is EoF
    ensures L_Body(h, c, a, s, c_str(c, has_us(s)), m)
{ reveal(R_Prologue); let c2 = c_str(c, has_us(s)); assert(R_Prologue(h, c, a, s, c2, m)); lemma_Body0(h, c, a, s, c2, m); }
//@broadcast g3::lemma_Prog1, g3::lemma_Prog2, g3::lemma_Prog3
// ---- imports and exports ----
pub open spec fn mod_src(h: int, a: int, l: Literal) -> bool { tk(h, a) is String && (l matches Literal::String(s) && s@ == txt(h, a)) }
/// the name after `as`, if any
pub open spec fn as_name(h: int, a: int, i: Option<Identifier>, b: int) -> bool {
    match i { None => !cw(h, a, "as"@) && b == a, Some(i) => cw(h, a, "as"@) && i@ == txt(h, nx(h, a)) && idname(tk(h, nx(h, a))) && b == nx(h, nx(h, a)) }
}
#[verifier::opaque]
pub open spec fn R_ImpSpec(h: int, c: Cx, a: int, x: ImportSpecifier, b: int) -> bool {
    x matches ImportSpecifier::Normal(n, l) && n@ == txt(h, a) && idname(tk(h, a)) && as_name(h, nx(h, a), l, b)
}
#[verifier::opaque]
pub open spec fn imp_ns(h: int, a: int, x: ImportSpecifier, b: int) -> bool {
    x matches ImportSpecifier::Namespace(n) && pu(h, a, Punct::Asterisk) && cw(h, nx(h, a), "as"@) && n@ == txt(h, nx(h, nx(h, a))) && idname(tk(h, nx(h, nx(h, a)))) && b == nx(h, nx(h, nx(h, a)))
}
#[verifier::opaque]
pub open spec fn imp_def(h: int, a: int, x: ImportSpecifier, b: int) -> bool { x matches ImportSpecifier::Default(n) && n@ == txt(h, a) && idname(tk(h, a)) && b == nx(h, a) }
#[verifier::opaque]
pub open spec fn el_Imp(h: int, c: Cx, m: int, x: ImportSpecifier, b: int) -> bool {
    exists|k: int| #[trigger] R_ImpSpec(h, c, m, x, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBrace) && b == k)
}
//@list g3 Imp ImportSpecifier
pub broadcast proof fn lemma_Imp1(h: int, c: Cx, m: int, x: ImportSpecifier, k: int)
    requires #[trigger] R_ImpSpec(h, c, m, x, k)
    ensures pu(h, k, Punct::Comma) ==> el_Imp(h, c, m, x, nx(h, k)), pu(h, k, Punct::CloseBrace) ==> el_Imp(h, c, m, x, k)
{ reveal(el_Imp); }
//@broadcast g3::lemma_Imp1
#[verifier::opaque]
pub open spec fn R_Named(h: int, c: Cx, a: int, s: Seq<ImportSpecifier>, b: int) -> bool { pu(h, a, Punct::OpenBrace) && named_t(h, c, nx(h, a), s, b) }
pub open spec fn named_t(h: int, c: Cx, a: int, s: Seq<ImportSpecifier>, b: int) -> bool { exists|m: int| #[trigger] L_Imp(h, c, a, s, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) }
/// everything between import and from
#[verifier::opaque]
pub open spec fn R_Clause(h: int, c: Cx, a: int, s: Seq<ImportSpecifier>, b: int) -> bool {
    let d = !kw(h, a, Keyword::Default);
    ||| R_Named(h, c, a, s, b)
    ||| s.len() == 1 && imp_ns(h, a, s[0], b)
    ||| s.len() == 1 && imp_def(h, a, s[0], b) && d
    ||| s.len() == 2 && d && imp_two(h, a, s[0], s[1], b)
    ||| s.len() >= 1 && d && imp_more(h, c, a, s[0], s, b)
}
pub open spec fn imp_two(h: int, a: int, x: ImportSpecifier, y: ImportSpecifier, b: int) -> bool { exists|m: int| #[trigger] imp_def(h, a, x, m) && pu(h, m, Punct::Comma) && imp_ns(h, nx(h, m), y, b) }
pub open spec fn imp_more(h: int, c: Cx, a: int, x: ImportSpecifier, s: Seq<ImportSpecifier>, b: int) -> bool {
    exists|m: int, t: Seq<ImportSpecifier>| #[trigger] imp_def(h, a, x, m) && pu(h, m, Punct::Comma) && #[trigger] R_Named(h, c, nx(h, m), t, b) && s == seq![x] + t
}
pub broadcast proof fn lemma_Clause1(h: int, c: Cx, a: int, s: Seq<ImportSpecifier>, b: int) requires #[trigger] R_Named(h, c, a, s, b) ensures R_Clause(h, c, a, s, b) { reveal(R_Clause); }
pub broadcast proof fn lemma_Clause2(h: int, c: Cx, a: int, x: ImportSpecifier, b: int) requires #[trigger] tc(c), #[trigger] imp_ns(h, a, x, b) ensures R_Clause(h, c, a, seq![x], b) { reveal(R_Clause); }
pub broadcast proof fn lemma_Clause6(h: int, c: Cx, a: int, x: ImportSpecifier, b: int) requires #[trigger] tc(c), #[trigger] imp_def(h, a, x, b), !kw(h, a, Keyword::Default) ensures R_Clause(h, c, a, seq![x], b) { reveal(R_Clause); }
pub broadcast proof fn lemma_Clause3(h: int, c: Cx, a: int, x: ImportSpecifier, y: ImportSpecifier, b: int) requires #[trigger] tc(c), #[trigger] imp_two(h, a, x, y, b), !kw(h, a, Keyword::Default)
    ensures R_Clause(h, c, a, seq![x].push(y), b) { reveal(R_Clause); }
pub broadcast proof fn lemma_Clause4(h: int, c: Cx, a: int, x: ImportSpecifier, t: Seq<ImportSpecifier>, m: int, b: int) requires #[trigger] imp_def(h, a, x, m), pu(h, m, Punct::Comma), !kw(h, a, Keyword::Default), #[trigger] R_Named(h, c, nx(h, m), t, b)
    ensures R_Clause(h, c, a, seq![x] + t, b) { reveal(R_Clause); }
pub broadcast proof fn lemma_Clause5(h: int, a: int, x: ImportSpecifier, m: int, y: ImportSpecifier, b: int)
    requires #[trigger] imp_def(h, a, x, m), pu(h, m, Punct::Comma), #[trigger] imp_ns(h, nx(h, m), y, b) ensures imp_two(h, a, x, y, b) { }
//@broadcast g3::lemma_Clause1, g3::lemma_Clause2, g3::lemma_Clause3, g3::lemma_Clause4, g3::lemma_Clause5, g3::lemma_Clause6
pub open spec fn from_t(h: int, c: Cx, a: int, s: Seq<ImportSpecifier>, src: Literal, b: int) -> bool {
    exists|m: int| #[trigger] R_Clause(h, c, a, s, m) && cw(h, m, "from"@) && mod_src(h, nx(h, m), src) && semi(h, nx(h, nx(h, m)), b)
}
#[verifier::opaque]
pub open spec fn R_Import(h: int, c: Cx, a: int, i: ModImport, b: int) -> bool {
    kw(h, a, Keyword::Import) && if tk(h, nx(h, a)) is String {
        i.specifiers@.len() == 0 && mod_src(h, nx(h, a), i.source) && semi(h, nx(h, nx(h, a)), b)
    } else { from_t(h, c, nx(h, a), i.specifiers@, i.source, b) }
}
#[verifier::opaque]
pub open spec fn R_ExpSpec(h: int, c: Cx, a: int, x: ExportSpecifier, b: int) -> bool { x.local@ == txt(h, a) && idname(tk(h, a)) && as_name(h, nx(h, a), x.exported, b) }
#[verifier::opaque]
pub open spec fn el_Exp(h: int, c: Cx, m: int, x: ExportSpecifier, b: int) -> bool {
    exists|k: int| #[trigger] R_ExpSpec(h, c, m, x, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBrace) && b == k)
}
//@list g3 Exp ExportSpecifier
pub broadcast proof fn lemma_Exp1(h: int, c: Cx, m: int, x: ExportSpecifier, k: int)
    requires #[trigger] R_ExpSpec(h, c, m, x, k)
    ensures pu(h, k, Punct::Comma) ==> el_Exp(h, c, m, x, nx(h, k)), pu(h, k, Punct::CloseBrace) ==> el_Exp(h, c, m, x, k)
{ reveal(el_Exp); }
//@broadcast g3::lemma_Exp1
pub open spec fn exp_from(h: int, a: int, src: Option<Literal>, b: int) -> bool {
    match src { None => !cw(h, a, "from"@) && semi(h, a, b), Some(l) => cw(h, a, "from"@) && mod_src(h, nx(h, a), l) && semi(h, nx(h, nx(h, a)), b) }
}
pub open spec fn exp_list(h: int, c: Cx, a: int, s: Seq<ExportSpecifier>, src: Option<Literal>, b: int) -> bool {
    exists|m: int| #[trigger] L_Exp(h, c, a, s, m) && pu(h, m, Punct::CloseBrace) && exp_from(h, nx(h, m), src, b)
}
pub open spec fn exp_expr(h: int, c: Cx, a: int, e: Expr, b: int) -> bool { exists|m: int| #[trigger] R_Assign(h, c, a, e, m) && semi(h, m, b) }
pub open spec fn exp_def(h: int, c: Cx, a: int, d: DefaultExportDecl, b: int) -> bool {
    match d {
        DefaultExportDecl::Decl(Decl::Function(f)) => R_FuncDecl(h, c, a, f, b),
        DefaultExportDecl::Decl(Decl::Class(k)) => R_Class(h, c, a, k, b),
        DefaultExportDecl::Expr(e) => !kw(h, a, Keyword::Function) && !kw(h, a, Keyword::Class) && exp_expr(h, c, a, e, b),
        _ => false,
    }
}
pub open spec fn exp_named(h: int, c: Cx, a: int, d: NamedExportDecl, b: int) -> bool {
    match d {
        NamedExportDecl::Decl(Decl::Variable(k, v)) => if k is Var { R_VarStmt(h, c, a, v@, b) } else { R_Lex(h, c, a, Decl::Variable(k, v), b) },
        NamedExportDecl::Decl(Decl::Function(f)) => R_FuncDecl(h, c, a, f, b),
        NamedExportDecl::Decl(Decl::Class(k)) => R_Class(h, c, a, k, b),
        NamedExportDecl::Specifier(s, src) => pu(h, a, Punct::OpenBrace) && exp_list(h, c, nx(h, a), s@, src, b),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn R_Export(h: int, c: Cx, a: int, x: ModExport, b: int) -> bool {
    kw(h, a, Keyword::Export) && match x {
        ModExport::All(src) => pu(h, nx(h, a), Punct::Asterisk) && cw(h, nx(h, nx(h, a)), "from"@) && mod_src(h, nx(h, nx(h, nx(h, a))), src) && semi(h, nx(h, nx(h, nx(h, nx(h, a)))), b),
        ModExport::Default(d) => kw(h, nx(h, a), Keyword::Default) && exp_def(h, c, nx(h, nx(h, a)), d, b),
        ModExport::Named(d) => !kw(h, nx(h, a), Keyword::Default) && exp_named(h, c, nx(h, a), d, b),
    }
}
}
pub use g3::*;
