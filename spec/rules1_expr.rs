pub mod g {
use super::*;
pub ghost struct Cx {
    pub module: bool, pub allow_in: bool, pub yld: bool, pub awt: bool, pub strict: bool,
    pub in_fn: bool, pub in_iter: bool, pub in_switch: bool, pub asd: bool, pub labels: Set<Seq<char>>,
}
pub uninterp spec fn cx_any() -> Cx;
// ---- grammar of expressions: R_X(h, c, a, x, b) = "tokens a..b of stream h derive tree x as an X in context c" ----
// The recursive nonterminals are the least relations closed under their rules (axioms rule_X: B_X ==> R_X);
// the others are plain definitions.
/// marks witnesses of existential quantifiers
pub open spec fn tr(i: int) -> bool { true }
/// mentions a context
pub open spec fn tc(c: Cx) -> bool { true }
pub open spec fn pu(h: int, i: int, p: Punct) -> bool { tk(h, i) == Token::Punct(p) }
pub open spec fn kw(h: int, i: int, k: Keyword) -> bool { tk(h, i) == Token::Keyword(k) }
pub open spec fn cw(h: int, i: int, s: Seq<char>) -> bool { txt(h, i) == s }
pub open spec fn c_in(c: Cx, v: bool) -> Cx { if ON_CTX { Cx { allow_in: v, ..c } } else { c } }
pub open spec fn c_yld(c: Cx, v: bool) -> Cx { if ON_CTX { Cx { yld: v, ..c } } else { c } }
pub open spec fn c_fn(c: Cx, yld: bool, awt: bool) -> Cx { if ON_CTX { Cx { yld, awt, ..c } } else { c } }
/// a `use strict` directive may (v) or may not stand in the body
pub open spec fn c_asd(c: Cx, v: bool) -> Cx { if ON_STRICT { Cx { asd: v, ..c } } else { c } }
/// a line break before token i, where the grammar forbids one
pub open spec fn brk(h: int, i: int) -> bool { ON_ASI && nl(h, i) }
pub open spec fn is_id(x: Expr, s: Seq<char>) -> bool { x matches Expr::Ident(i) && i@ == s }

pub uninterp spec fn R_Assign(h: int, c: Cx, a: int, x: Expr, b: int) -> bool;
pub uninterp spec fn R_Unary(h: int, c: Cx, a: int, x: Expr, b: int) -> bool;
pub uninterp spec fn R_Exp(h: int, c: Cx, a: int, x: Expr, b: int) -> bool;
pub uninterp spec fn R_Bin(h: int, c: Cx, p: int, a: int, x: Expr, b: int) -> bool;
pub uninterp spec fn R_Lhs(h: int, c: Cx, a: int, x: Expr, b: int) -> bool;
pub uninterp spec fn R_Mem(h: int, c: Cx, a: int, x: Expr, b: int) -> bool;

// ---- lists ----
pub broadcast proof fn lemma_push_dl<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.push(x).drop_last() == s
{ assert(s.push(x).drop_last() =~= s); }
pub open spec fn L_Exprs(h: int, c: Cx, a: int, s: Seq<Expr>, b: int) -> bool decreases s.len() {
    if s.len() == 0 { b == a }
    else if s.len() == 1 { R_Assign(h, c, a, s[0], b) }
    else { exists|m: int| #[trigger] tr(m) && L_Exprs(h, c, a, s.drop_last(), m) && pu(h, m, Punct::Comma) && R_Assign(h, c, nx(h, m), s.last(), b) }
}
pub broadcast proof fn lemma_L_Exprs1(h: int, c: Cx, a: int, x: Expr, b: int)
    requires R_Assign(h, c, a, x, b)
    ensures #[trigger] L_Exprs(h, c, a, seq![x], b)
{ assert(seq![x].len() == 1); assert(seq![x][0] == x); }
pub broadcast proof fn lemma_L_Exprs(h: int, c: Cx, a: int, s: Seq<Expr>, m: int, x: Expr, b: int)
    requires #[trigger] L_Exprs(h, c, a, s, m), s.len() >= 1, pu(h, m, Punct::Comma), R_Assign(h, c, nx(h, m), x, b)
    ensures #[trigger] L_Exprs(h, c, a, s.push(x), b)
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); assert(tr(m) && L_Exprs(h, c, a, s.push(x).drop_last(), m)); }
pub open spec fn R_Arg(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    R_Spread(h, c, a, x, b) || R_Assign(h, c, a, x, b)
}
#[verifier::opaque]
pub open spec fn R_Spread(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    pu(h, a, Punct::Spread) && (x matches Expr::Spread(e) && R_Assign(h, c, nx(h, a), *e, b))
}
/// arguments read so far; after each but the last one comes a comma
pub open spec fn L_Args(h: int, c: Cx, a: int, s: Seq<Expr>, b: int) -> bool decreases s.len() {
    if s.len() == 0 { b == a }
    else { exists|m: int| #[trigger] tr(m) && L_Args(h, c, a, s.drop_last(), m) && R_Arg(h, c, if s.len() == 1 { m } else { nx(h, m) }, s.last(), b) && (s.len() == 1 || pu(h, m, Punct::Comma)) }
}
pub broadcast proof fn lemma_L_Args(h: int, c: Cx, a: int, s: Seq<Expr>, m: int, x: Expr, b: int)
    requires #[trigger] L_Args(h, c, a, s, m), s.len() == 0 || pu(h, m, Punct::Comma), R_Arg(h, c, if s.len() == 0 { m } else { nx(h, m) }, x, b)
    ensures #[trigger] L_Args(h, c, a, s.push(x), b)
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); assert(tr(m) && L_Args(h, c, a, s.push(x).drop_last(), m)); }
/// loop state: the list is complete up to an optional comma already consumed
#[verifier::opaque]
pub open spec fn S_Args(h: int, c: Cx, a: int, s: Seq<Expr>, b: int) -> bool {
    if s.len() == 0 { b == a } else { exists|m: int| #[trigger] L_Args(h, c, a, s, m) && pu(h, m, Punct::Comma) && b == nx(h, m) }
}
/// all arguments, with an optional comma behind them
#[verifier::opaque]
pub open spec fn E_Args(h: int, c: Cx, a: int, s: Seq<Expr>, b: int) -> bool {
    ||| s.len() == 0 && b == a
    ||| exists|m: int| #[trigger] L_Args(h, c, a, s, m) && (b == m || s.len() > 0 && pu(h, m, Punct::Comma) && b == nx(h, m))
}
pub broadcast proof fn lemma_SA0(h: int, c: Cx, a: int)
    ensures #[trigger] S_Args(h, c, a, Seq::<Expr>::empty(), a)
{ reveal(S_Args); }
pub broadcast proof fn lemma_SA1(h: int, c: Cx, a: int, s: Seq<Expr>, b: int)
    requires #[trigger] S_Args(h, c, a, s, b) ensures E_Args(h, c, a, s, b)
{ reveal(S_Args); reveal(E_Args); }
pub proof fn lemma_SA(h: int, c: Cx, a: int, s: Seq<Expr>, b0: int, x: Expr, m: int)
    requires S_Args(h, c, a, s, b0), R_Arg(h, c, b0, x, m)
    ensures E_Args(h, c, a, s.push(x), m), pu(h, m, Punct::Comma) ==> S_Args(h, c, a, s.push(x), nx(h, m)) && E_Args(h, c, a, s.push(x), nx(h, m))
{
    reveal(S_Args); reveal(E_Args);
    if s.len() == 0 { assert(L_Args(h, c, a, s, a)); lemma_L_Args(h, c, a, s, a, x, m); }
    else { let k = choose|k: int| #[trigger] L_Args(h, c, a, s, k) && pu(h, k, Punct::Comma) && b0 == nx(h, k); lemma_L_Args(h, c, a, s, k, x, m); }
}
pub broadcast proof fn lemma_SA2(h: int, c: Cx, a: int, s: Seq<Expr>, b0: int, x: Expr, m: int)
    requires #[trigger] S_Args(h, c, a, s, b0), #[trigger] R_Assign(h, c, b0, x, m)
    ensures E_Args(h, c, a, s.push(x), m), pu(h, m, Punct::Comma) ==> S_Args(h, c, a, s.push(x), nx(h, m)) && E_Args(h, c, a, s.push(x), nx(h, m))
{ lemma_SA(h, c, a, s, b0, x, m); }
pub broadcast proof fn lemma_SA3(h: int, c: Cx, a: int, s: Seq<Expr>, b0: int, x: Expr, m: int)
    requires #[trigger] S_Args(h, c, a, s, b0), #[trigger] R_Spread(h, c, b0, x, m)
    ensures E_Args(h, c, a, s.push(x), m), pu(h, m, Punct::Comma) ==> S_Args(h, c, a, s.push(x), nx(h, m)) && E_Args(h, c, a, s.push(x), nx(h, m))
{ lemma_SA(h, c, a, s, b0, x, m); }
#[verifier::opaque]
pub open spec fn R_Args(h: int, c: Cx, a: int, s: Seq<Expr>, b: int) -> bool {
    pu(h, a, Punct::OpenParen) && exists|k: int| #[trigger] E_Args(h, c, nx(h, a), s, k) && pu(h, k, Punct::CloseParen) && b == nx(h, k)
}
pub broadcast proof fn lemma_Args0(h: int, c: Cx, a: int, s: Seq<Expr>, b: int)
    requires s.len() == 0, pu(h, a, Punct::OpenParen), pu(h, nx(h, a), Punct::CloseParen), b == nx(h, nx(h, a))
    ensures #[trigger] R_Args(h, c, a, s, b)
{ reveal(R_Args); reveal(E_Args); assert(E_Args(h, c, nx(h, a), s, nx(h, a))); }
#[verifier::opaque]
pub open spec fn L_Arr(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, b: int) -> bool decreases s.len() {
    if s.len() == 0 { b == a }
    else { exists|m: int| #[trigger] tr(m) && L_Arr(h, c, a, s.drop_last(), m) && el_Arr(h, c, m, s.last(), b) }
}
pub open spec fn el_Arr(h: int, c: Cx, m: int, x: Option<Expr>, b: int) -> bool {
    match x {
        None => pu(h, m, Punct::Comma) && b == nx(h, m),
        Some(e) => exists|k: int| #[trigger] R_Arg(h, c, m, e, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBracket) && b == k),
    }
}
pub proof fn lemma_L_Arr(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, x: Option<Expr>, b: int)
    requires L_Arr(h, c, a, s, m), el_Arr(h, c, m, x, b)
    ensures L_Arr(h, c, a, s.push(x), b)
{ reveal(L_Arr); assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); assert(tr(m) && L_Arr(h, c, a, s.push(x).drop_last(), m)); }
pub broadcast proof fn lemma_LA0(h: int, c: Cx, a: int)
    ensures #[trigger] L_Arr(h, c, a, Seq::<Option<Expr>>::empty(), a)
{ reveal(L_Arr); }
pub broadcast proof fn lemma_LA1(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int)
    requires #[trigger] L_Arr(h, c, a, s, m), pu(h, m, Punct::Comma)
    ensures L_Arr(h, c, a, s.push(None), nx(h, m))
{ lemma_L_Arr(h, c, a, s, m, None, nx(h, m)); }
pub proof fn lemma_LA(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, e: Expr, k: int)
    requires L_Arr(h, c, a, s, m), R_Arg(h, c, m, e, k)
    ensures pu(h, k, Punct::Comma) ==> L_Arr(h, c, a, s.push(Some(e)), nx(h, k)), pu(h, k, Punct::CloseBracket) ==> L_Arr(h, c, a, s.push(Some(e)), k)
{
    if pu(h, k, Punct::Comma) { lemma_L_Arr(h, c, a, s, m, Some(e), nx(h, k)); }
    if pu(h, k, Punct::CloseBracket) { lemma_L_Arr(h, c, a, s, m, Some(e), k); }
}
pub broadcast proof fn lemma_LA2(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, e: Expr, k: int)
    requires #[trigger] L_Arr(h, c, a, s, m), #[trigger] R_Assign(h, c, m, e, k)
    ensures pu(h, k, Punct::Comma) ==> L_Arr(h, c, a, s.push(Some(e)), nx(h, k)), pu(h, k, Punct::CloseBracket) ==> L_Arr(h, c, a, s.push(Some(e)), k)
{ lemma_LA(h, c, a, s, m, e, k); }
pub broadcast proof fn lemma_LA3(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, e: Expr, k: int)
    requires #[trigger] L_Arr(h, c, a, s, m), #[trigger] R_Spread(h, c, m, e, k)
    ensures pu(h, k, Punct::Comma) ==> L_Arr(h, c, a, s.push(Some(e)), nx(h, k)), pu(h, k, Punct::CloseBracket) ==> L_Arr(h, c, a, s.push(Some(e)), k)
{ lemma_LA(h, c, a, s, m, e, k); }
pub open spec fn E_Arr(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, b: int) -> bool {
    exists|m: int| #[trigger] L_Arr(h, c, a, s, m) && pu(h, m, Punct::CloseBracket) && b == nx(h, m)
}
#[verifier::opaque]
pub open spec fn R_Arr(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    pu(h, a, Punct::OpenBracket) && (x matches Expr::Array(s) && E_Arr(h, c, nx(h, a), s@, b))
}
// ---- templates ----
#[verifier::opaque]
pub open spec fn R_TplEl(h: int, a: int, q: TemplateElement, b: int) -> bool {
    &&& tk(h, a) is Template && b == nx(h, a)
    &&& q.raw@ == txt(h, a)
    &&& q.tail == (tk(h, a) == Token::Template(Template::Tail) || tk(h, a) == Token::Template(Template::NoSub))
    &&& q.cooked@ == substr(txt(h, a), 1, if q.tail { blen(txt(h, a)) - 1 } else { blen(txt(h, a)) - 2 })
}
pub open spec fn L_Tpl(h: int, c: Cx, a: int, qs: Seq<TemplateElement>, es: Seq<Expr>, b: int) -> bool decreases qs.len() {
    if qs.len() <= 1 { qs.len() == 1 && es.len() == 0 && R_TplEl(h, a, qs[0], b) }
    else {
        &&& es.len() > 0
        &&& !qs[qs.len() - 2].tail
        &&& exists|m: int, k: int| #[trigger] tr(m) && #[trigger] tr(k) && L_Tpl(h, c, a, qs.drop_last(), es.drop_last(), m) && R_Expr(h, c, m, es.last(), k) && R_TplEl(h, k, qs.last(), b)
    }
}
pub broadcast proof fn lemma_L_Tpl1(h: int, c: Cx, a: int, q: TemplateElement, b: int)
    requires R_TplEl(h, a, q, b)
    ensures #[trigger] L_Tpl(h, c, a, Seq::<TemplateElement>::empty().push(q), Seq::<Expr>::empty(), b)
{ }
pub broadcast proof fn lemma_L_Tpl(h: int, c: Cx, a: int, qs: Seq<TemplateElement>, es: Seq<Expr>, m: int, e: Expr, k: int, q: TemplateElement, b: int)
    requires #[trigger] L_Tpl(h, c, a, qs, es, m), qs.len() >= 1, !qs.last().tail, #[trigger] R_Expr(h, c, m, e, k), R_TplEl(h, k, q, b)
    ensures #[trigger] L_Tpl(h, c, a, qs.push(q), es.push(e), b)
{
    assert(qs.push(q).drop_last() =~= qs); assert(es.push(e).drop_last() =~= es);
    assert(qs.push(q).last() == q); assert(es.push(e).last() == e);
    assert(tr(m) && tr(k)); assert(L_Tpl(h, c, a, qs.push(q).drop_last(), es.push(e).drop_last(), m)); assert(R_Expr(h, c, m, es.push(e).last(), k));
}
#[verifier::opaque]
pub open spec fn R_Tpl(h: int, c: Cx, a: int, t: TemplateLiteral, b: int) -> bool {
    &&& tk(h, a) == Token::Template(Template::Head) || tk(h, a) == Token::Template(Template::NoSub)
    &&& L_Tpl(h, c, a, t.quasis@, t.expressions@, b)
    &&& t.quasis@.last().tail
}
// ---- primary expressions ----
#[verifier::opaque]
pub open spec fn R_Prim(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    match tk(h, a) {
        Token::Ident => (is_id(x, txt(h, a)) && b == nx(h, a)) || (cw(h, a, "async"@) && R_FuncExpr(h, c, a, x, b)),
        Token::Numeric(_) => b == nx(h, a) && (x matches Expr::Literal(Literal::Number(s)) && s@ == txt(h, a)),
        Token::String(_) => b == nx(h, a) && (x matches Expr::Literal(Literal::String(s)) && s@ == txt(h, a)),
        Token::Boolean(v) => b == nx(h, a) && x == Expr::Literal(Literal::Boolean(v)),
        Token::Template(_) => x matches Expr::Literal(Literal::Template(t)) && R_Tpl(h, c, a, t, b),
        Token::RegEx => b == nx(h, a) && (x matches Expr::Literal(Literal::RegEx(r)) && ({
            let k = rfind_at(txt(h, a), '/')->0;
            r.pattern@ == substr(txt(h, a), 1, k) && r.flags@ == substr(txt(h, a), k + 1, blen(txt(h, a)))
        })),
        Token::Punct(Punct::OpenParen) => R_Group(h, c, a, x, b),
        Token::Punct(Punct::OpenBracket) => R_Arr(h, c, a, x, b),
        Token::Punct(Punct::OpenBrace) => R_Obj(h, c, a, x, b),
        Token::Keyword(Keyword::Function) => R_FuncExpr(h, c, a, x, b),
        Token::Keyword(Keyword::This) => x is This && b == nx(h, a),
        Token::Keyword(Keyword::Class) => x matches Expr::Class(k) && R_Class(h, c, a, k, b),
        Token::Keyword(k) => is_id(x, txt(h, a)) && b == nx(h, a) && id_kw(h, a, c, k),
        _ => false,
    }
}
/// keywords that stand as names: `yield` and `let` and the strict reserved words in sloppy code, `import` of an import call
pub open spec fn id_kw(h: int, a: int, c: Cx, k: Keyword) -> bool {
    &&& k is Import ==> pu(h, nx(h, a), Punct::OpenParen)
    &&& k is Import || k is Yield || k is Let || k.sp_strict_reserved()
    &&& k is Yield && ON_CTX ==> c.yld // true: not in a generator
    &&& !(k is Import) && ON_STRICT ==> !c.strict
}
#[verifier::opaque]
pub open spec fn eargs(ps: Seq<FunctionArg>, es: Seq<Expr>) -> bool {
    ps.len() == es.len() && forall|q: int| 0 <= q < ps.len() ==> #[trigger] ps[q] == FunctionArg::Expr(es[q])
}
#[verifier::opaque]
pub open spec fn R_Group(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    pu(h, a, Punct::OpenParen) && match x {
        Expr::ArrowParamPlaceHolder(ps, y) => !y && pu(h, b, Punct::FatArrow) && R_ArrowParams(h, c, nx(h, a), ps@, b),
        _ => !pu(h, b, Punct::FatArrow) && {
            ||| exists|m: int| #[trigger] R_Assign(h, c, nx(h, a), x, m) && pu(h, m, Punct::CloseParen) && b == nx(h, m)
            ||| x matches Expr::Sequence(s) && s@.len() >= 2 && G_Exprs(h, c, nx(h, a), s@, b)
        },
    }
}
pub open spec fn G_Exprs(h: int, c: Cx, a: int, s: Seq<Expr>, b: int) -> bool {
    exists|m: int| #[trigger] L_Exprs(h, c, a, s, m) && pu(h, m, Punct::CloseParen) && b == nx(h, m)
}
/// `a` is the token after `(`, `b` the one after `)`
#[verifier::opaque]
pub open spec fn R_ArrowParams(h: int, c: Cx, a: int, ps: Seq<FunctionArg>, b: int) -> bool {
    ||| ps.len() == 0 && pu(h, a, Punct::CloseParen) && b == nx(h, a)
    ||| ps.len() == 1 && (ps[0] matches FunctionArg::Expr(e) && (ON_TARGET ==> bndd(h, c, a, e)) && exists|m: int| #[trigger] R_Assign(h, c, a, e, m) && pu(h, m, Punct::CloseParen) && b == nx(h, m))
    ||| exists|es: Seq<Expr>, m: int| #[trigger] L_Exprs(h, c, a, es, m) && es.len() > 0 && eargs(ps, es) && (ON_TARGET ==> L_Bnds(h, c, a, es, m))
            && (pu(h, m, Punct::CloseParen) && b == nx(h, m) || pu(h, m, Punct::Comma) && pu(h, nx(h, m), Punct::CloseParen) && b == nx(h, nx(h, m)))
    ||| ps.len() == 1 && (ps[0] matches FunctionArg::Pat(p) && exists|m: int| #[trigger] R_Rest(h, c, a, p, m) && pu(h, m, Punct::CloseParen) && b == nx(h, m))
    ||| ps.len() > 1 && (ps.last() matches FunctionArg::Pat(p) && exists|es: Seq<Expr>, k: int, m: int| #[trigger] L_Exprs(h, c, a, es, k) && es.len() > 0
            && eargs(ps.drop_last(), es) && (ON_TARGET ==> L_Bnds(h, c, a, es, k)) && pu(h, k, Punct::Comma) && #[trigger] R_Rest(h, c, nx(h, k), p, m) && pu(h, m, Punct::CloseParen) && b == nx(h, m))
}
/// one assignment expression or a comma list of at least two
pub open spec fn R_Seq(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| R_Assign(h, c, a, x, b)
    ||| x matches Expr::Sequence(s) && s@.len() >= 2 && L_Exprs(h, c, a, s@, b)
}
#[verifier::opaque]
pub open spec fn R_Expr(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    R_Seq(h, c, a, x, b) && !pu(h, b, Punct::Comma)
}
// ---- member, call and new expressions ----
#[verifier::opaque]
pub open spec fn R_New(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    let a1 = nx(h, a);
    &&& kw(h, a, Keyword::New)
    &&& match x {
        Expr::MetaProperty(p) => pu(h, a1, Punct::Period) && p.meta@ == "new"@ && cw(h, nx(h, a1), "target"@) && p.property@ == "target"@ && b == nx(h, nx(h, a1)) && (ON_CTX ==> c.in_fn),
        Expr::New(n) => !pu(h, a1, Punct::Period) && exists|m: int| #[trigger] R_Member(h, c, a1, *n.callee, m)
            && (if pu(h, m, Punct::OpenParen) { R_Args(h, c, m, n.arguments@, b) } else { n.arguments@.len() == 0 && b == m }),
        _ => false,
    }
}
/// a name after a dot or in an export list
pub open spec fn idname(t: Token) -> bool { t is Ident || t is Keyword || t is Boolean || t is Null }
pub open spec fn step(h: int, c: Cx, m: int, o: Expr, x: Expr, b: int) -> bool {
    ||| x matches Expr::Member(e) && *e.object == o && !e.computed && pu(h, m, Punct::Period) && idname(tk(h, nx(h, m))) && is_id(*e.property, txt(h, nx(h, m))) && b == nx(h, nx(h, m))
    ||| x matches Expr::Member(e) && *e.object == o && e.computed && pu(h, m, Punct::OpenBracket) && exists|k: int| #[trigger] R_Expr(h, c, nx(h, m), *e.property, k) && pu(h, k, Punct::CloseBracket) && b == nx(h, k)
    ||| x matches Expr::TaggedTemplate(e) && *e.tag == o && R_Tpl(h, c, m, e.quasi, b)
}
pub open spec fn super_x(h: int, a: int, x: Expr, b: int) -> bool { kw(h, a, Keyword::Super) && x is Super && b == nx(h, a) }
pub open spec fn super_(h: int, c: Cx, a: int, x: Expr, b: int) -> bool { super_x(h, a, x, b) && (ON_CTX ==> c.in_fn) }
#[verifier::opaque]
pub open spec fn B_Mem(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| super_(h, c, a, x, b) && (pu(h, b, Punct::Period) || pu(h, b, Punct::OpenBracket))
    ||| R_New(h, c, a, x, b)
    ||| R_Prim(h, c, a, x, b)
    ||| exists|m: int, o: Expr| #[trigger] R_Mem(h, c, a, o, m) && step(h, c, m, o, x, b)
}
#[verifier::opaque]
pub open spec fn B_Lhs(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| super_(h, c, a, x, b) && (pu(h, b, Punct::Period) || pu(h, b, Punct::OpenBracket) || pu(h, b, Punct::OpenParen))
    ||| R_New(h, c, a, x, b)
    ||| R_Prim(h, c, a, x, b)
    ||| exists|m: int, o: Expr| #[trigger] R_Lhs(h, c, a, o, m) && step(h, c, m, o, x, b)
    ||| x matches Expr::Call(e) && exists|m: int| #[trigger] R_Lhs(h, c, a, *e.callee, m) && R_Args(h, c, m, e.arguments@, b)
    ||| x matches Expr::ArrowParamPlaceHolder(ps, y) && y && cw(h, a, "async"@) && pu(h, b, Punct::FatArrow) && exists|m: int, o: Expr, es: Seq<Expr>| #[trigger] R_Lhs(h, c, a, o, m) && o is Ident && #[trigger] R_Args(h, c, m, es, b) && eargs(ps@, es) && (ON_TARGET ==> bnd_args(h, c, m, es))
}
pub broadcast axiom fn rule_Mem(h: int, c: Cx, a: int, x: Expr, b: int) requires B_Mem(h, c, a, x, b) ensures #[trigger] R_Mem(h, c, a, x, b);
pub broadcast axiom fn rule_Lhs(h: int, c: Cx, a: int, x: Expr, b: int) requires B_Lhs(h, c, a, x, b) ensures #[trigger] R_Lhs(h, c, a, x, b);
pub open spec fn tplhead(t: Token) -> bool { t == Token::Template(Template::Head) || t == Token::Template(Template::NoSub) }
#[verifier::opaque]
pub open spec fn R_Member(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    R_Mem(h, c, a, x, b) && !pu(h, b, Punct::Period) && !pu(h, b, Punct::OpenBracket) && !tplhead(tk(h, b))
}
#[verifier::opaque]
pub open spec fn R_Call(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    R_Lhs(h, c_in(c, true), a, x, b) && !pu(h, b, Punct::Period) && !pu(h, b, Punct::OpenBracket) && !tplhead(tk(h, b)) && !pu(h, b, Punct::OpenParen)
}
// ---- operators ----
pub open spec fn updop(t: Token) -> Option<UpdateOperator> {
    if t == Token::Punct(Punct::Increment) { Some(UpdateOperator::Increment) } else if t == Token::Punct(Punct::Decrement) { Some(UpdateOperator::Decrement) } else { None }
}
/// x is no name that strict code does not assign to
pub open spec fn upd_ok(c: Cx, x: Expr) -> bool { ON_STRICT && c.strict ==> !(x matches Expr::Ident(i) && restricted(i@)) }
#[verifier::opaque]
pub open spec fn R_Update(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| updop(tk(h, a)) is Some && (x matches Expr::Update(u) && u.prefix && upd_ok(c, *u.argument) && upd_tgt(*u.argument) && updop(tk(h, a)) == Some(u.operator) && R_Unary(h, c, nx(h, a), *u.argument, b))
    ||| updop(tk(h, a)) is None && (x matches Expr::Update(u) && !u.prefix && upd_ok(c, *u.argument) && upd_tgt(*u.argument) && exists|m: int| #[trigger] R_Call(h, c, a, *u.argument, m) && updop(tk(h, m)) == Some(u.operator) && !brk(h, m) && b == nx(h, m))
    ||| updop(tk(h, a)) is None && R_Call(h, c, a, x, b) && (updop(tk(h, b)) is Some && ON_ASI ==> nl(h, b))
}
pub open spec fn unop(t: Token) -> Option<UnaryOperator> {
    match t {
        Token::Punct(Punct::Minus) => Some(UnaryOperator::Minus), Token::Punct(Punct::Plus) => Some(UnaryOperator::Plus),
        Token::Punct(Punct::Not) => Some(UnaryOperator::Not), Token::Punct(Punct::BitwiseNot) => Some(UnaryOperator::Tilde),
        Token::Keyword(Keyword::TypeOf) => Some(UnaryOperator::TypeOf), Token::Keyword(Keyword::Void) => Some(UnaryOperator::Void),
        Token::Keyword(Keyword::Delete) => Some(UnaryOperator::Delete), _ => None,
    }
}
#[verifier::opaque]
pub open spec fn B_Unary(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| x matches Expr::Unary(u) && u.prefix && (ON_STRICT && c.strict && u.operator is Delete ==> !(*u.argument is Ident)) && unop(tk(h, a)) == Some(u.operator) && R_Unary(h, c, nx(h, a), *u.argument, b)
    ||| x matches Expr::Await(e) && kw(h, a, Keyword::Await) && (ON_CTX ==> c.awt) && R_Unary(h, c, nx(h, a), *e, b)
    ||| unop(tk(h, a)) is None && R_Update(h, c, a, x, b)
}
pub broadcast axiom fn rule_Unary(h: int, c: Cx, a: int, x: Expr, b: int) requires B_Unary(h, c, a, x, b) ensures #[trigger] R_Unary(h, c, a, x, b);
pub open spec fn unhead(h: int, c: Cx, a: int) -> bool { unop(tk(h, a)) is Some || (kw(h, a, Keyword::Await) && (ON_CTX ==> c.awt)) }
#[verifier::opaque]
pub open spec fn B_Exp(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| R_Unary(h, c, a, x, b) && !pu(h, b, Punct::Exponent)
    ||| x matches Expr::Binary(e) && e.operator is PowerOf && unop(tk(h, a)) is None && exists|m: int| #[trigger] R_Unary(h, c, a, *e.left, m) && pu(h, m, Punct::Exponent) && R_Exp(h, c, nx(h, m), *e.right, b)
}
pub broadcast axiom fn rule_Exp(h: int, c: Cx, a: int, x: Expr, b: int) requires B_Exp(h, c, a, x, b) ensures #[trigger] R_Exp(h, c, a, x, b);
pub open spec fn pprec(p: Punct) -> int {
    match p {
        Punct::LogicalOr => 1, Punct::LogicalAnd => 2, Punct::Pipe => 3, Punct::Caret => 4, Punct::And => 5,
        Punct::Equal | Punct::NotEqual | Punct::StrictEquals | Punct::StrictNotEquals => 6,
        Punct::GreaterThan | Punct::LessThan | Punct::LessThanEqual | Punct::GreaterThanEqual => 7,
        Punct::LeftShift | Punct::RightShift | Punct::UnsignedRightShift => 8,
        Punct::Plus | Punct::Minus => 9,
        Punct::Asterisk | Punct::ForwardSlash | Punct::Modulo => 11,
        _ => 0,
    }
}
pub open spec fn tkprec(t: Token) -> int {
    match t { Token::Punct(p) => pprec(p), Token::Keyword(Keyword::InstanceOf) => 7, Token::Keyword(Keyword::In) => 7, _ => 0 }
}
pub open spec fn binop(t: Token) -> Option<BinaryOperator> {
    match t {
        Token::Keyword(Keyword::InstanceOf) => Some(BinaryOperator::InstanceOf), Token::Keyword(Keyword::In) => Some(BinaryOperator::In),
        Token::Punct(Punct::Equal) => Some(BinaryOperator::Equal), Token::Punct(Punct::NotEqual) => Some(BinaryOperator::NotEqual),
        Token::Punct(Punct::StrictEquals) => Some(BinaryOperator::StrictEqual), Token::Punct(Punct::StrictNotEquals) => Some(BinaryOperator::StrictNotEqual),
        Token::Punct(Punct::LessThan) => Some(BinaryOperator::LessThan), Token::Punct(Punct::LessThanEqual) => Some(BinaryOperator::LessThanEqual),
        Token::Punct(Punct::GreaterThan) => Some(BinaryOperator::GreaterThan), Token::Punct(Punct::GreaterThanEqual) => Some(BinaryOperator::GreaterThanEqual),
        Token::Punct(Punct::LeftShift) => Some(BinaryOperator::LeftShift), Token::Punct(Punct::RightShift) => Some(BinaryOperator::RightShift),
        Token::Punct(Punct::UnsignedRightShift) => Some(BinaryOperator::UnsignedRightShift), Token::Punct(Punct::Plus) => Some(BinaryOperator::Plus),
        Token::Punct(Punct::Minus) => Some(BinaryOperator::Minus), Token::Punct(Punct::Asterisk) => Some(BinaryOperator::Times),
        Token::Punct(Punct::ForwardSlash) => Some(BinaryOperator::Over), Token::Punct(Punct::Modulo) => Some(BinaryOperator::Mod),
        Token::Punct(Punct::And) => Some(BinaryOperator::And), Token::Punct(Punct::Pipe) => Some(BinaryOperator::Or),
        Token::Punct(Punct::Caret) => Some(BinaryOperator::XOr), _ => None,
    }
}
pub open spec fn logop(t: Token) -> Option<LogicalOperator> {
    match t { Token::Punct(Punct::LogicalAnd) => Some(LogicalOperator::And), Token::Punct(Punct::LogicalOr) => Some(LogicalOperator::Or), _ => None }
}
/// x is the node that operator token t makes of l and r
pub open spec fn node(t: Token, l: Expr, r: Expr, x: Expr) -> bool {
    ||| x matches Expr::Logical(e) && logop(t) == Some(e.operator) && *e.left == l && *e.right == r
    ||| x matches Expr::Binary(e) && logop(t) is None && binop(t) == Some(e.operator) && *e.left == l && *e.right == r
}
/// `in` is an operator here
pub open spec fn inop(c: Cx, t: Token) -> bool { t == Token::Keyword(Keyword::In) && ON_CTX ==> c.allow_in }
#[verifier::opaque]
pub open spec fn B_Bin(h: int, c: Cx, p: int, a: int, x: Expr, b: int) -> bool {
    ||| R_Exp(h, c, a, x, b)
    ||| exists|l: Expr, m: int, r: Expr| #[trigger] R_Bin(h, c, tkprec(tk(h, m)), a, l, m) && tkprec(tk(h, m)) >= p && tkprec(tk(h, m)) >= 1 && inop(c, tk(h, m))
            && #[trigger] R_Bin(h, c, tkprec(tk(h, m)) + 1, nx(h, m), r, b) && node(tk(h, m), l, r, x)
    ||| exists|q: int| q > p && #[trigger] R_Bin(h, c, q, a, x, b)
}
pub axiom fn rule_Bin(h: int, c: Cx, p: int, a: int, x: Expr, b: int) requires B_Bin(h, c, p, a, x, b) ensures R_Bin(h, c, p, a, x, b);
pub broadcast proof fn lemma_BinExp(h: int, c: Cx, p: int, a: int, x: Expr, b: int)
    requires R_Exp(h, c, a, x, b) ensures #[trigger] R_Bin(h, c, p, a, x, b)
{ reveal(B_Bin); rule_Bin(h, c, p, a, x, b); }
pub proof fn lemma_BinWeak(h: int, c: Cx, q: int, p: int, a: int, x: Expr, b: int)
    requires R_Bin(h, c, q, a, x, b), q >= p ensures R_Bin(h, c, p, a, x, b)
{ reveal(B_Bin); if q > p { rule_Bin(h, c, p, a, x, b); } }
pub proof fn lemma_BinNode(h: int, c: Cx, p: int, a: int, l: Expr, m: int, r: Expr, b: int, x: Expr)
    requires tkprec(tk(h, m)) >= 1, inop(c, tk(h, m)), tkprec(tk(h, m)) >= p, R_Bin(h, c, tkprec(tk(h, m)), a, l, m), R_Bin(h, c, tkprec(tk(h, m)) + 1, nx(h, m), r, b), node(tk(h, m), l, r, x)
    ensures R_Bin(h, c, p, a, x, b)
{ reveal(B_Bin); rule_Bin(h, c, p, a, x, b); }
/// operand stack of the operator-precedence parser: operators strictly increasing in precedence, each operand
/// below the top derived at the precedence of the operator to its right, the top one at level `lv`
pub open spec fn stk(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, lv: int, b: int) -> bool decreases es.len() {
    if es.len() <= 1 { es.len() == 1 && ops.len() == 0 && R_Bin(h, c, lv, a, es[0], b) }
    else {
        &&& ops.len() == es.len() - 1 && tkprec(ops.last()) >= 1 && inop(c, ops.last())
        &&& ops.len() > 1 ==> tkprec(ops[ops.len() - 2]) < tkprec(ops.last())
        &&& lv > tkprec(ops.last())
        &&& exists|m: int| #[trigger] tr(m) && stk(h, c, a, es.drop_last(), ops.drop_last(), tkprec(ops.last()), m) && tk(h, m) == ops.last() && R_Bin(h, c, lv, nx(h, m), es.last(), b)
    }
}
/// top operand is a plain operand, so good for every level
pub open spec fn stk_top(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, b: int) -> bool {
    forall|lv: int| (ops.len() > 0 ==> lv > tkprec(ops.last())) ==> #[trigger] stk(h, c, a, es, ops, lv, b)
}
pub proof fn lemma_stk_weak(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, lv: int, l2: int, b: int)
    requires stk(h, c, a, es, ops, lv, b), l2 <= lv, ops.len() > 0 ==> l2 > tkprec(ops.last())
    ensures stk(h, c, a, es, ops, l2, b)
{
    if es.len() <= 1 { lemma_BinWeak(h, c, lv, l2, a, es[0], b); }
    else {
        let m = choose|m: int| #[trigger] tr(m) && stk(h, c, a, es.drop_last(), ops.drop_last(), tkprec(ops.last()), m) && tk(h, m) == ops.last() && R_Bin(h, c, lv, nx(h, m), es.last(), b);
        lemma_BinWeak(h, c, lv, l2, nx(h, m), es.last(), b);
    }
}
pub proof fn lemma_stk_push(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, m: int, e: Expr, lv: int, b: int)
    requires #[trigger] stk(h, c, a, es, ops, tkprec(tk(h, m)), m), R_Exp(h, c, nx(h, m), e, b), tkprec(tk(h, m)) >= 1, inop(c, tk(h, m)), lv > tkprec(tk(h, m)),
    ensures #[trigger] stk(h, c, a, es.push(e), ops.push(tk(h, m)), lv, b)
{
    let t = tk(h, m);
    assert(es.push(e).drop_last() =~= es); assert(ops.push(t).drop_last() =~= ops);
    assert(es.push(e).last() == e); assert(ops.push(t).last() == t);
    lemma_BinExp(h, c, lv, nx(h, m), e, b);
    lemma_stk_len(h, c, a, es, ops, tkprec(t), m);
    if ops.len() > 0 { assert(ops.push(t)[ops.len() - 1] == ops.last()); }
    assert(tr(m)); assert(stk(h, c, a, es.push(e).drop_last(), ops.push(t).drop_last(), tkprec(t), m));
}
pub proof fn lemma_stk_len(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, lv: int, b: int)
    requires stk(h, c, a, es, ops, lv, b) ensures es.len() == ops.len() + 1, ops.len() > 0 ==> lv > tkprec(ops.last())
{ }
/// the two topmost operands become one
pub proof fn lemma_stk_reduce(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, lv: int, b: int, x: Expr, l2: int)
    requires #[trigger] stk(h, c, a, es, ops, lv, b), ops.len() > 0, node(ops.last(), es[es.len() - 2], es.last(), x), l2 <= tkprec(ops.last()), ops.len() > 1 ==> l2 > tkprec(ops[ops.len() - 2])
    ensures #[trigger] stk(h, c, a, es.drop_last().drop_last().push(x), ops.drop_last(), l2, b)
{
    let p = tkprec(ops.last());
    lemma_stk_len(h, c, a, es, ops, lv, b);
    let m = choose|m: int| #[trigger] tr(m) && stk(h, c, a, es.drop_last(), ops.drop_last(), p, m) && tk(h, m) == ops.last() && R_Bin(h, c, lv, nx(h, m), es.last(), b);
    lemma_BinWeak(h, c, lv, p + 1, nx(h, m), es.last(), b);
    let e1 = es.drop_last(); let o1 = ops.drop_last();
    let ne = e1.drop_last().push(x);
    assert(ne.drop_last() =~= e1.drop_last()); assert(ne.last() == x);
    assert(e1.last() == es[es.len() - 2]);
    if e1.len() <= 1 {
        lemma_BinNode(h, c, l2, a, e1[0], m, es.last(), b, x);
        assert(ne[0] == x);
    } else {
        let k = choose|k: int| #[trigger] tr(k) && stk(h, c, a, e1.drop_last(), o1.drop_last(), tkprec(o1.last()), k) && tk(h, k) == o1.last() && R_Bin(h, c, p, nx(h, k), e1.last(), m);
        assert(o1.last() == ops[ops.len() - 2]);
        lemma_BinNode(h, c, l2, nx(h, k), e1.last(), m, es.last(), b, x);
        assert(tr(k)); assert(stk(h, c, a, ne.drop_last(), o1.drop_last(), tkprec(o1.last()), k));
    }
}
pub open spec fn lvl(ops: Seq<Token>, p: int) -> int { if ops.len() > 0 && tkprec(ops.last()) >= p { tkprec(ops.last()) + 1 } else { p } }
pub proof fn lemma_stk_init(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, b: int)
    requires es.len() == 2, ops.len() == 1, tkprec(ops[0]) >= 1, inop(c, ops[0]),
        exists|m: int| #[trigger] R_Exp(h, c, a, es[0], m) && tk(h, m) == ops[0] && R_Exp(h, c, nx(h, m), es[1], b)
    ensures stk_top(h, c, a, es, ops, b)
{
    let m = choose|m: int| #[trigger] R_Exp(h, c, a, es[0], m) && tk(h, m) == ops[0] && R_Exp(h, c, nx(h, m), es[1], b);
    let e0 = es.drop_last(); let o0 = ops.drop_last();
    assert(stk(h, c, a, e0, o0, tkprec(ops[0]), m)) by { lemma_BinExp(h, c, tkprec(ops[0]), a, e0[0], m); }
    assert(es =~= e0.push(es[1])); assert(ops =~= o0.push(ops[0]));
    assert forall|lv: int| (ops.len() > 0 ==> lv > tkprec(ops.last())) implies #[trigger] stk(h, c, a, es, ops, lv, b) by {
        lemma_stk_push(h, c, a, e0, o0, m, es[1], lv, b);
    }
}
pub proof fn lemma_stk_push_top(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, m: int, b: int)
    requires es.len() >= 1, ops.len() >= 1, ops.last() == tk(h, m), stk(h, c, a, es.drop_last(), ops.drop_last(), tkprec(tk(h, m)), m),
        R_Exp(h, c, nx(h, m), es.last(), b), tkprec(tk(h, m)) >= 1, inop(c, tk(h, m))
    ensures stk_top(h, c, a, es, ops, b)
{
    assert(es =~= es.drop_last().push(es.last())); assert(ops =~= ops.drop_last().push(ops.last()));
    assert forall|lv: int| (ops.len() > 0 ==> lv > tkprec(ops.last())) implies #[trigger] stk(h, c, a, es, ops, lv, b) by {
        lemma_stk_push(h, c, a, es.drop_last(), ops.drop_last(), m, es.last(), lv, b);
    }
}
/// one reduction, from stacks (es, ops) to (fs, qs)
pub proof fn lemma_stk_step(h: int, c: Cx, a: int, es: Seq<Expr>, ops: Seq<Token>, fs: Seq<Expr>, qs: Seq<Token>, p: int, b: int)
    requires stk(h, c, a, es, ops, lvl(ops, p), b), ops.len() > 0, p <= tkprec(ops.last()), fs.len() == es.len() - 1, qs == ops.drop_last(),
        fs.drop_last() == es.drop_last().drop_last(), node(ops.last(), es[es.len() - 2], es.last(), fs.last())
    ensures stk(h, c, a, fs, qs, lvl(qs, p), b)
{
    lemma_stk_len(h, c, a, es, ops, lvl(ops, p), b);
    assert(fs =~= es.drop_last().drop_last().push(fs.last()));
    if qs.len() > 0 { assert(qs.last() == ops[ops.len() - 2]); }
    lemma_stk_reduce(h, c, a, es, ops, lvl(ops, p), b, fs.last(), lvl(qs, p));
}
#[verifier::opaque]
pub open spec fn R_Binary(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    R_Bin(h, c, 1, a, x, b) && (tkprec(tk(h, b)) == 0 || (kw(h, b, Keyword::In) && (ON_CTX ==> !c.allow_in)))
}
#[verifier::opaque]
pub open spec fn R_Cond(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| R_Binary(h, c, a, x, b) && !pu(h, b, Punct::QuestionMark)
    ||| x matches Expr::Conditional(e) && exists|m: int, k: int| #[trigger] R_Binary(h, c, a, *e.test, m) && pu(h, m, Punct::QuestionMark)
            && #[trigger] R_Assign(h, c_in(c, true), nx(h, m), *e.consequent, k) && pu(h, k, Punct::Colon) && R_Assign(h, c, nx(h, k), *e.alternate, b)
}
pub open spec fn asgop(t: Token) -> Option<AssignmentOperator> {
    match t {
        Token::Punct(Punct::Assign) => Some(AssignmentOperator::Equal), Token::Punct(Punct::AddAssign) => Some(AssignmentOperator::PlusEqual),
        Token::Punct(Punct::SubtractAssign) => Some(AssignmentOperator::MinusEqual), Token::Punct(Punct::MultiplyAssign) => Some(AssignmentOperator::TimesEqual),
        Token::Punct(Punct::DivideAssign) => Some(AssignmentOperator::DivEqual), Token::Punct(Punct::ModuloAssign) => Some(AssignmentOperator::ModEqual),
        Token::Punct(Punct::LeftShiftAssign) => Some(AssignmentOperator::LeftShiftEqual), Token::Punct(Punct::RightShiftAssign) => Some(AssignmentOperator::RightShiftEqual),
        Token::Punct(Punct::UnsignedRightShiftAssign) => Some(AssignmentOperator::UnsignedRightShiftEqual), Token::Punct(Punct::BitwiseOrAssign) => Some(AssignmentOperator::OrEqual),
        Token::Punct(Punct::BitwiseXOrAssign) => Some(AssignmentOperator::XOrEqual), Token::Punct(Punct::BitwiseAndAssign) => Some(AssignmentOperator::AndEqual),
        Token::Punct(Punct::ExponentAssign) => Some(AssignmentOperator::PowerOfEqual), _ => None,
    }
}
/// tokens after which `yield` takes an operand
pub open spec fn exprstart(t: Token) -> bool {
    match t {
        Token::Punct(p) => p is OpenBrace || p is OpenParen || p is OpenBracket || p is Plus || p is Minus || p is Not || p is BitwiseNot || p is Increment || p is Decrement,
        Token::Keyword(k) => k.sp_strict_reserved() || k is Await || k is Import || k is Class || k is Delete || k is Function || k is Let || k is New || k is Super || k is This || k is TypeOf || k is Void || k is Yield,
        Token::EoF => false,
        Token::Template(_) => tplhead(t),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn R_Yield(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    let a1 = nx(h, a);
    kw(h, a, Keyword::Yield) && (x matches Expr::Yield(y) && match y.argument {
        None => !y.delegate && b == a1 && (ON_ASI ==> nl(h, a1) || !pu(h, a1, Punct::Asterisk) && !exprstart(tk(h, a1))),
        Some(e) => !brk(h, a1) && (if y.delegate { pu(h, a1, Punct::Asterisk) && R_Assign(h, c_yld(c, false), nx(h, a1), *e, b) }
                                   else { !pu(h, a1, Punct::Asterisk) && R_Assign(h, c_yld(c, false), a1, *e, b) }),
    })
}
/// parameters of an arrow function standing at a..m
#[verifier::opaque]
pub open spec fn R_Params(h: int, c: Cx, a: int, ps: Seq<FunctionArg>, m: int) -> bool {
    ||| exists|x: Expr| #[trigger] R_Cond(h, c, a, x, m) && (x matches Expr::ArrowParamPlaceHolder(p, z) && !z && ps == p@)
    ||| exists|x: Expr| #[trigger] R_Cond(h, c, a, x, m) && x is Ident && ps.len() == 1 && ps[0] == FunctionArg::Expr(x)
}
/// the same with `async`
#[verifier::opaque]
pub open spec fn R_AParams(h: int, c: Cx, a: int, ps: Seq<FunctionArg>, m: int) -> bool {
    ||| exists|x: Expr| #[trigger] R_Cond(h, c, a, x, m) && (x matches Expr::ArrowParamPlaceHolder(p, z) && z && ps == p@)
    ||| cw(h, a, "async"@) && ps.len() == 1 && (ps[0] matches FunctionArg::Pat(Pat::Identifier(i)) && exists|x: Expr, z: Expr, k: int| #[trigger] R_Cond(h, c, a, x, k) && x is Ident
            && (tk(h, k) is Ident || kw(h, k, Keyword::Yield)) && #[trigger] R_Prim(h, c, k, z, m) && (z matches Expr::Ident(j) && i@ == j@))
}
/// ps are the parameters that x stands for
pub open spec fn cover(x: Expr, ps: Seq<FunctionArg>) -> bool {
    (x is Ident && ps.len() == 1 && ps[0] == FunctionArg::Expr(x)) || (x matches Expr::ArrowParamPlaceHolder(qs, _) && ps == qs@)
}
pub open spec fn sp_async(x: Expr) -> bool { x matches Expr::ArrowParamPlaceHolder(_, y) && y }
pub broadcast proof fn lemma_AH1(h: int, c: Cx, a: int, x: Expr, ps: Seq<FunctionArg>, m: int)
    requires #[trigger] R_Cond(h, c, a, x, m), #[trigger] cover(x, ps)
    ensures sp_async(x) ==> R_AParams(h, c, a, ps, m), !sp_async(x) ==> R_Params(h, c, a, ps, m)
{ reveal(R_Params); reveal(R_AParams); }
pub broadcast proof fn lemma_AH2(h: int, c: Cx, a: int, x: Expr, k: int, z: Expr, m: int, y: Expr, ps: Seq<FunctionArg>)
    requires #[trigger] R_Cond(h, c, a, x, k), x is Ident, tk(h, k) is Ident || kw(h, k, Keyword::Yield), #[trigger] R_Prim(h, c, k, z, m), cw(h, a, "async"@),
        #[trigger] cover(y, ps), sp_async(y), ps.len() == 1, z is Ident, ps[0] is Pat, ps[0]->Pat_0 is Identifier, ps[0]->Pat_0->Identifier_0@ == z->Ident_0@
    ensures R_AParams(h, c, a, ps, m)
{ reveal(R_AParams); }
/// eval and arguments as parameters
pub open spec fn restr_p(p: FunctionArg) -> bool { (p matches FunctionArg::Pat(Pat::Identifier(i)) && restricted(i@)) || (p matches FunctionArg::Expr(Expr::Ident(j)) && restricted(j@)) }
pub open spec fn restr_ps(ps: Seq<FunctionArg>) -> bool { exists|q: int| 0 <= q < ps.len() && restr_p(#[trigger] ps[q]) }
pub open spec fn arrow_body(h: int, c: Cx, a: int, s: Seq<ProgramPart>, ps: Seq<FunctionArg>, b: int) -> bool {
    exists|st: Cx| #[trigger] R_BodyC(h, c, a, s, st, b) && (ON_STRICT && st.strict ==> !restr_ps(ps))
}
/// the rest of arrow function f from its `=>` on
pub open spec fn arrow_tail(h: int, c: Cx, m: int, f: ArrowFunctionExpr, b: int) -> bool {
    pu(h, m, Punct::FatArrow) && !brk(h, m) && match f.body {
        ArrowFunctionBody::FunctionBody(s) => !f.expression && pu(h, nx(h, m), Punct::OpenBrace) && arrow_body(h, c_asd(c_in(c_fn(c, true, f.is_async), true), simple_args(f.params@)), nx(h, m), s@, f.params@, b),
        ArrowFunctionBody::Expr(e) => f.expression && (ON_STRICT && c.strict ==> !restr_ps(f.params@)) && !pu(h, nx(h, m), Punct::OpenBrace) && R_Assign(h, c_fn(c, true, f.is_async), nx(h, m), *e, b),
    }
}
pub open spec fn arrow(h: int, c: Cx, a: int, f: ArrowFunctionExpr, ps: Seq<FunctionArg>, b: int) -> bool {
    if f.is_async { exists|m: int| #[trigger] R_AParams(h, c, a, ps, m) && arrow_tail(h, c, m, f, b) } else { exists|m: int| #[trigger] R_Params(h, c, a, ps, m) && arrow_tail(h, c, m, f, b) }
}
#[verifier::opaque]
pub open spec fn R_Arrow(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    x matches Expr::ArrowFunction(f) && f.id is None && !f.generator && arrow(h, c, a, f, f.params@, b)
}
pub open spec fn simple_arg(p: FunctionArg) -> bool { p matches FunctionArg::Pat(Pat::Identifier(_)) || p matches FunctionArg::Expr(Expr::Ident(_)) }
pub open spec fn simple_args(ps: Seq<FunctionArg>) -> bool { forall|q: int| 0 <= q < ps.len() ==> simple_arg(#[trigger] ps[q]) }
#[verifier::opaque]
pub open spec fn B_Assign(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    ||| (ON_CTX ==> !c.yld) && R_Yield(h, c, a, x, b)
    ||| R_Arrow(h, c, a, x, b)
    ||| x matches Expr::Assignment(e) && (e.left matches AssignmentLeft::Expr(l) && upd_ok(c, *l) && asg_tgt(h, c, a, *l, e.operator) && exists|m: int| #[trigger] R_Cond(h, c, a, *l, m) && asgop(tk(h, m)) == Some(e.operator)
            && R_Assign(h, c, nx(h, m), *e.right, b))
    ||| R_Cond(h, c, a, x, b) && asgop(tk(h, b)) is None && !pu(h, b, Punct::FatArrow) && !(x is ArrowParamPlaceHolder)
}
pub broadcast axiom fn rule_Assign(h: int, c: Cx, a: int, x: Expr, b: int) requires B_Assign(h, c, a, x, b) ensures #[trigger] R_Assign(h, c, a, x, b);
}
pub use g::*;
//@broadcast g::rule_Assign, g::rule_Unary, g::rule_Exp, g::rule_Mem, g::rule_Lhs, g::lemma_L_Exprs1, g::lemma_L_Exprs, g::lemma_SA0, g::lemma_Args0, g::lemma_SA1, g::lemma_SA2, g::lemma_SA3, g::lemma_LA0, g::lemma_LA1, g::lemma_LA2, g::lemma_LA3, g::lemma_L_Tpl1, g::lemma_L_Tpl, g::lemma_BinExp, g::lemma_AH1, g::lemma_AH2, g::lemma_push_dl

