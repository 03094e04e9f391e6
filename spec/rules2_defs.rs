// ---- grammar of patterns, object literals, functions and classes ----
pub mod g2 {
use super::*;
pub uninterp spec fn R_Pat(h: int, c: Cx, a: int, p: Pat, b: int) -> bool;
pub uninterp spec fn R_Item(h: int, c: Cx, a: int, p: ProgramPart, b: int) -> bool;
pub open spec fn restricted(s: Seq<char>) -> bool { s == "eval"@ || s == "arguments"@ }
/// c with strict code switched on if v
pub open spec fn c_str(c: Cx, v: bool) -> Cx { if ON_STRICT && v { Cx { strict: true, ..c } } else { c } }
/// context of a function body
pub open spec fn c_body(c: Cx) -> Cx {
    if ON_EARLY { Cx { in_fn: true, in_iter: false, in_switch: false, labels: Set::empty(), ..c } } else if ON_CTX { Cx { in_fn: true, ..c } } else { c }
}
/// the token may stand as the name of a variable
pub open spec fn name_ok(h: int, c: Cx, a: int) -> bool {
    match tk(h, a) {
        Token::Ident => true,
        Token::Keyword(k) => match k {
            Keyword::Yield => (ON_CTX ==> c.yld) && (ON_STRICT ==> !c.strict),
            Keyword::Await => ON_CTX ==> !c.module && !c.awt,
            Keyword::Let => ON_STRICT ==> !c.strict,
            _ => k.sp_strict_reserved() && (ON_STRICT ==> !c.strict),
        },
        _ => false,
    }
}
// ---- patterns ----
#[verifier::opaque]
pub open spec fn R_BRest(h: int, c: Cx, a: int, p: Pat, b: int) -> bool {
    pu(h, a, Punct::Spread) && (p matches Pat::RestElement(q) && R_Pat(h, c, nx(h, a), *q, b))
}
/// rest parameter
#[verifier::opaque]
pub open spec fn R_Rest(h: int, c: Cx, a: int, p: Pat, b: int) -> bool { R_BRest(h, c, a, p, b) && pu(h, b, Punct::CloseParen) }
/// pattern with an optional default
#[verifier::opaque]
pub open spec fn R_PatDef(h: int, c: Cx, a: int, p: Pat, b: int) -> bool {
    ||| R_Pat(h, c, a, p, b) && !pu(h, b, Punct::Assign)
    ||| p matches Pat::Assignment(e) && exists|m: int| #[trigger] R_Pat(h, c, a, *e.left, m) && pu(h, m, Punct::Assign) && R_Assign(h, c, nx(h, m), *e.right, b)
}
#[verifier::opaque]
pub open spec fn el_APat(h: int, c: Cx, m: int, x: Option<ArrayPatPart>, b: int) -> bool {
    match x {
        None => pu(h, m, Punct::Comma) && b == nx(h, m),
        Some(ArrayPatPart::Pat(p)) => {
            ||| R_BRest(h, c, m, p, b) && pu(h, b, Punct::CloseBracket)
            ||| exists|k: int| #[trigger] R_PatDef(h, c, m, p, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBracket) && b == k)
        },
        _ => false,
    }
}
//@list g2 APat Option<ArrayPatPart>
pub broadcast proof fn lemma_APat0(h: int, c: Cx, a: int, s: Seq<Option<ArrayPatPart>>, m: int)
    requires #[trigger] L_APat(h, c, a, s, m), pu(h, m, Punct::Comma) ensures L_APat(h, c, a, s.push(None), nx(h, m))
{ reveal(el_APat); assert(el_APat(h, c, m, None, nx(h, m))); list_APat_p(h, c, a, s, m, None, nx(h, m)); }
pub broadcast proof fn lemma_APat1(h: int, c: Cx, m: int, p: Pat, k: int)
    requires #[trigger] R_PatDef(h, c, m, p, k)
    ensures pu(h, k, Punct::Comma) ==> el_APat(h, c, m, Some(ArrayPatPart::Pat(p)), nx(h, k)), pu(h, k, Punct::CloseBracket) ==> el_APat(h, c, m, Some(ArrayPatPart::Pat(p)), k)
{ reveal(el_APat); }
pub broadcast proof fn lemma_APat2(h: int, c: Cx, m: int, p: Pat, k: int)
    requires #[trigger] R_BRest(h, c, m, p, k), pu(h, k, Punct::CloseBracket) ensures el_APat(h, c, m, Some(ArrayPatPart::Pat(p)), k)
{ reveal(el_APat); }
//@broadcast g2::lemma_APat0, g2::lemma_APat1, g2::lemma_APat2
pub open spec fn litkey(e: Expr) -> bool { e matches Expr::Literal(l) && (l is String || l is Number || l is Boolean) }
/// the key of a property written as expression e in brackets
pub open spec fn keyof(e: Expr, k: PropertyKey) -> bool {
    if litkey(e) { k == PropertyKey::Literal(e->Literal_0) } else { k == PropertyKey::Expr(e) }
}
#[verifier::opaque]
pub open spec fn R_Key(h: int, c: Cx, a: int, k: PropertyKey, b: int) -> bool {
    match tk(h, a) {
        Token::String(_) => b == nx(h, a) && (k matches PropertyKey::Literal(Literal::String(s)) && s@ == txt(h, a)),
        Token::Numeric(_) => b == nx(h, a) && (k matches PropertyKey::Literal(Literal::Number(s)) && s@ == txt(h, a)),
        Token::Ident | Token::Boolean(_) | Token::Null | Token::Keyword(_) => b == nx(h, a) && (k matches PropertyKey::Expr(e) && is_id(e, txt(h, a))),
        Token::Punct(Punct::OpenBracket) => exists|e: Expr, m: int| #[trigger] R_Assign(h, c, nx(h, a), e, m) && pu(h, m, Punct::CloseBracket) && b == nx(h, m) && keyof(e, k),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn R_PropPat(h: int, c: Cx, a: int, x: ObjectPatPart, b: int) -> bool {
    let a1 = nx(h, a);
    x matches ObjectPatPart::Assignment(p) && p.kind is Init && !p.method && if tk(h, a) is Ident {
        &&& !p.computed
        &&& p.key matches PropertyKey::Expr(k) && is_id(k, txt(h, a))
        &&& match p.value {
            PropertyValue::Expr(e) => p.short_hand && pu(h, a1, Punct::Assign) && R_Assign(h, c, nx(h, a1), e, b),
            PropertyValue::None => p.short_hand && b == a1 && !pu(h, a1, Punct::Assign) && !pu(h, a1, Punct::Colon),
            PropertyValue::Pat(q) => !p.short_hand && pu(h, a1, Punct::Colon) && R_PatDef(h, c, nx(h, a1), q, b),
        }
        &&& ON_STRICT && c.strict && restricted(txt(h, a)) ==> p.value is Pat
    } else {
        &&& !p.short_hand
        &&& p.computed == pu(h, a, Punct::OpenBracket)
        &&& p.value matches PropertyValue::Pat(q) && exists|m: int| #[trigger] R_Key(h, c, a, p.key, m) && pu(h, m, Punct::Colon) && R_PatDef(h, c, nx(h, m), q, b)
    }
}
#[verifier::opaque]
pub open spec fn el_OPat(h: int, c: Cx, m: int, x: ObjectPatPart, b: int) -> bool {
    ||| x matches ObjectPatPart::Rest(p) && R_BRest(h, c, m, *p, b) && pu(h, b, Punct::CloseBrace)
    ||| exists|k: int| #[trigger] R_PropPat(h, c, m, x, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBrace) && b == k)
}
//@list g2 OPat ObjectPatPart
pub broadcast proof fn lemma_OPat1(h: int, c: Cx, m: int, x: ObjectPatPart, k: int)
    requires #[trigger] R_PropPat(h, c, m, x, k)
    ensures pu(h, k, Punct::Comma) ==> el_OPat(h, c, m, x, nx(h, k)), pu(h, k, Punct::CloseBrace) ==> el_OPat(h, c, m, x, k)
{ reveal(el_OPat); }
pub open spec fn R_ORest(h: int, c: Cx, m: int, x: ObjectPatPart, b: int) -> bool { x matches ObjectPatPart::Rest(p) && R_BRest(h, c, m, *p, b) }
#[verifier::opaque]
pub open spec fn R_RestProp(h: int, c: Cx, m: int, x: ObjectPatPart, b: int) -> bool { R_ORest(h, c, m, x, b) }
pub broadcast proof fn lemma_OPat2(h: int, c: Cx, m: int, x: ObjectPatPart, k: int)
    requires #[trigger] R_RestProp(h, c, m, x, k), pu(h, k, Punct::CloseBrace) ensures el_OPat(h, c, m, x, k)
{ reveal(el_OPat); reveal(R_RestProp); }
//@broadcast g2::lemma_OPat1, g2::lemma_OPat2
pub open spec fn E_APat(h: int, c: Cx, a: int, s: Seq<Option<ArrayPatPart>>, b: int) -> bool { exists|m: int| #[trigger] L_APat(h, c, a, s, m) && pu(h, m, Punct::CloseBracket) && b == nx(h, m) }
pub open spec fn E_OPat(h: int, c: Cx, a: int, s: Seq<ObjectPatPart>, b: int) -> bool { exists|m: int| #[trigger] L_OPat(h, c, a, s, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) }
#[verifier::opaque]
pub open spec fn B_Pat(h: int, c: Cx, a: int, p: Pat, b: int) -> bool {
    match p {
        Pat::Identifier(i) => name_ok(h, c, a) && i@ == txt(h, a) && b == nx(h, a) && (ON_STRICT && c.strict ==> !restricted(txt(h, a))),
        Pat::Array(s) => pu(h, a, Punct::OpenBracket) && E_APat(h, c_in(c, true), nx(h, a), s@, b),
        Pat::Object(s) => pu(h, a, Punct::OpenBrace) && E_OPat(h, c_in(c, true), nx(h, a), s@, b),
        _ => false,
    }
}
pub broadcast axiom fn rule_Pat(h: int, c: Cx, a: int, p: Pat, b: int) requires B_Pat(h, c, a, p, b) ensures #[trigger] R_Pat(h, c, a, p, b);
//@broadcast g2::rule_Pat
// ---- functions ----
pub open spec fn restr_pat(p: Pat) -> bool {
    match p { Pat::Identifier(i) => restricted(i@), Pat::Assignment(e) => *e.left matches Pat::Identifier(i) && restricted(i@), Pat::RestElement(q) => *q matches Pat::Identifier(i) && restricted(i@), _ => false }
}
pub open spec fn restr_arg(x: FunctionArg) -> bool { x matches FunctionArg::Pat(p) && restr_pat(p) }
pub open spec fn restr_args(s: Seq<FunctionArg>) -> bool { exists|q: int| 0 <= q < s.len() && restr_arg(#[trigger] s[q]) }
pub broadcast proof fn lemma_args_0() ensures #[trigger] simple_args(Seq::<FunctionArg>::empty()), !restr_args(Seq::<FunctionArg>::empty()) { }
pub broadcast proof fn lemma_args_s(s: Seq<FunctionArg>, x: FunctionArg) ensures #[trigger] simple_args(s.push(x)) == (simple_args(s) && simple_arg(x))
{ let t = s.push(x); assert(t[s.len() as int] == x); assert(forall|q: int| 0 <= q < s.len() ==> t[q] == #[trigger] s[q]); }
pub broadcast proof fn lemma_args_r(s: Seq<FunctionArg>, x: FunctionArg) ensures #[trigger] restr_args(s.push(x)) == (restr_args(s) || restr_arg(x))
{ let t = s.push(x); assert(t[s.len() as int] == x); assert(forall|q: int| 0 <= q < s.len() ==> t[q] == #[trigger] s[q]); }
//@broadcast g2::lemma_args_0, g2::lemma_args_s, g2::lemma_args_r
#[verifier::opaque]
pub open spec fn R_Formal(h: int, c: Cx, a: int, x: FunctionArg, b: int) -> bool {
    x matches FunctionArg::Pat(p) && if pu(h, a, Punct::Spread) { R_Rest(h, c, a, p, b) } else { R_PatDef(h, c, a, p, b) }
}
/// a parameter with the comma behind it
#[verifier::opaque]
pub open spec fn el_Form(h: int, c: Cx, m: int, x: FunctionArg, b: int) -> bool {
    exists|k: int| #[trigger] R_Formal(h, c, m, x, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseParen) && b == k)
}
//@list g2 Form FunctionArg
pub broadcast proof fn lemma_Form1(h: int, c: Cx, m: int, x: FunctionArg, k: int)
    requires #[trigger] R_Formal(h, c, m, x, k)
    ensures pu(h, k, Punct::Comma) ==> el_Form(h, c, m, x, nx(h, k)), pu(h, k, Punct::CloseParen) ==> el_Form(h, c, m, x, k)
{ reveal(el_Form); }
//@broadcast g2::lemma_Form1
#[verifier::opaque]
pub open spec fn R_Formals(h: int, c: Cx, a: int, s: Seq<FunctionArg>, b: int) -> bool {
    pu(h, a, Punct::OpenParen) && exists|m: int| #[trigger] L_Form(h, c, nx(h, a), s, m) && pu(h, m, Punct::CloseParen) && b == nx(h, m)
}
pub open spec fn semi(h: int, m: int, b: int) -> bool {
    ||| pu(h, m, Punct::SemiColon) && b == nx(h, m)
    ||| !pu(h, m, Punct::SemiColon) && b == m && (ON_ASI ==> nl(h, m) || pu(h, m, Punct::CloseBrace) || tk(h, m) is EoF)
}
pub open spec fn is_us(p: ProgramPart) -> bool { p matches ProgramPart::Dir(d) && d.dir@ == "use strict"@ }
pub open spec fn has_us(s: Seq<ProgramPart>) -> bool decreases s.len() { s.len() > 0 && (is_us(s.last()) || has_us(s.drop_last())) }
/// one member of a directive prologue
#[verifier::opaque]
pub open spec fn R_Dir(h: int, c: Cx, a: int, p: ProgramPart, b: int) -> bool {
    tk(h, a) is String && match p {
        ProgramPart::Dir(d) => exists|x: Expr, m: int| #[trigger] R_Expr(h, c, a, x, m) && semi(h, m, b) && (x matches Expr::Literal(l) && l == d.expr)
            && (d.expr matches Literal::String(s) && d.dir@ == substr(s@, 1, blen(s@) - 1)) && (ON_STRICT && is_us(p) ==> c.asd),
        ProgramPart::Stmt(Stmt::Expr(x)) => exists|m: int| #[trigger] R_Expr(h, c, a, x, m) && (if x is Literal { b == m && !(x->Literal_0 is String) } else { semi(h, m, b) }),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn L_Dirs(h: int, c: Cx, a: int, s: Seq<ProgramPart>, b: int) -> bool decreases s.len() {
    if s.len() == 0 { b == a }
    else { exists|m: int| #[trigger] tr(m) && L_Dirs(h, c, a, s.drop_last(), m) && R_Dir(h, c_str(c, has_us(s.drop_last())), m, s.last(), b) && (s.len() > 1 ==> s[s.len() - 2] is Dir) }
}
pub broadcast proof fn lemma_Dirs0(h: int, c: Cx, a: int) ensures #[trigger] L_Dirs(h, c, a, Seq::<ProgramPart>::empty(), a), !has_us(Seq::<ProgramPart>::empty()) { reveal(L_Dirs); }
pub broadcast proof fn lemma_Dirs1(h: int, c: Cx, a: int, s: Seq<ProgramPart>, m: int, c1: Cx, x: ProgramPart, b: int)
    requires #[trigger] L_Dirs(h, c, a, s, m), #[trigger] R_Dir(h, c1, m, x, b), c1 == c_str(c, has_us(s)), s.len() > 0 ==> s.last() is Dir
    ensures L_Dirs(h, c, a, s.push(x), b), has_us(s.push(x)) == (is_us(x) || has_us(s))
{ reveal(L_Dirs); assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); assert(tr(m) && L_Dirs(h, c, a, s.push(x).drop_last(), m)); }
//@broadcast g2::lemma_Dirs0, g2::lemma_Dirs1
/// directives in front of the other items; c2 is the context behind them
#[verifier::opaque]
pub open spec fn R_Prologue(h: int, c: Cx, a: int, s: Seq<ProgramPart>, c2: Cx, b: int) -> bool {
    L_Dirs(h, c, a, s, b) && c2 == c_str(c, has_us(s)) && (tk(h, b) is String ==> s.len() > 0 && !(s.last() is Dir))
}
pub open spec fn el_Items(h: int, c: Cx, m: int, x: ProgramPart, b: int) -> bool { R_Item(h, c, m, x, b) }
//@list g2 Items ProgramPart
pub broadcast proof fn lemma_Items1(h: int, c: Cx, a: int, s: Seq<ProgramPart>, m: int, x: ProgramPart, b: int)
    requires #[trigger] L_Items(h, c, a, s, m), #[trigger] R_Item(h, c, m, x, b) ensures L_Items(h, c, a, s.push(x), b)
{ list_Items_p(h, c, a, s, m, x, b); }
/// directives, then items
#[verifier::opaque]
pub open spec fn L_Body(h: int, c: Cx, a: int, s: Seq<ProgramPart>, c2: Cx, b: int) -> bool {
    exists|d: Seq<ProgramPart>, t: Seq<ProgramPart>, m: int| s == d + t && #[trigger] R_Prologue(h, c, a, d, c2, m) && #[trigger] L_Items(h, c2, m, t, b)
}
pub broadcast proof fn lemma_Body0(h: int, c: Cx, a: int, s: Seq<ProgramPart>, c2: Cx, b: int)
    requires #[trigger] R_Prologue(h, c, a, s, c2, b) ensures L_Body(h, c, a, s, c2, b)
{ reveal(L_Body); let t = Seq::<ProgramPart>::empty(); assert(s =~= s + t); list_Items_0(h, c2, b); assert(L_Items(h, c2, b, t, b)); }
pub broadcast proof fn lemma_Body1(h: int, c: Cx, a: int, s: Seq<ProgramPart>, c2: Cx, m: int, x: ProgramPart, b: int)
    requires #[trigger] L_Body(h, c, a, s, c2, m), #[trigger] R_Item(h, c2, m, x, b) ensures L_Body(h, c, a, s.push(x), c2, b)
{
    reveal(L_Body);
    let (d, t, k) = choose|d: Seq<ProgramPart>, t: Seq<ProgramPart>, k: int| s == d + t && #[trigger] R_Prologue(h, c, a, d, c2, k) && #[trigger] L_Items(h, c2, k, t, m);
    list_Items_p(h, c2, k, t, m, x, b);
    assert(s.push(x) =~= d + t.push(x));
}
//@broadcast g2::lemma_Items1, g2::lemma_Body0, g2::lemma_Body1
#[verifier::opaque]
pub open spec fn R_BodyC(h: int, c: Cx, a: int, s: Seq<ProgramPart>, st: Cx, b: int) -> bool {
    pu(h, a, Punct::OpenBrace) && exists|m: int, c2: Cx| #[trigger] L_Body(h, c_body(c), nx(h, a), s, c2, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) && (ON_STRICT ==> st.strict == c2.strict)
}
/// a body inside strict code is strict
pub broadcast proof fn lemma_BodyC(h: int, c: Cx, a: int, s: Seq<ProgramPart>, st: Cx, b: int)
    requires #[trigger] R_BodyC(h, c, a, s, st, b) ensures ON_STRICT && c.strict ==> st.strict
{
    reveal(R_BodyC); reveal(L_Body); reveal(R_Prologue);
    let (m, c2) = choose|m: int, c2: Cx| #[trigger] L_Body(h, c_body(c), nx(h, a), s, c2, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) && (ON_STRICT ==> st.strict == c2.strict);
    let (d, t, k) = choose|d: Seq<ProgramPart>, t: Seq<ProgramPart>, k: int| s == d + t && #[trigger] R_Prologue(h, c_body(c), nx(h, a), d, c2, k) && #[trigger] L_Items(h, c2, k, t, m);
}
//@broadcast g2::lemma_BodyC
#[verifier::opaque]
pub open spec fn R_Body(h: int, c: Cx, a: int, s: Seq<ProgramPart>, b: int) -> bool {
    exists|st: Cx| #[trigger] R_BodyC(h, c, a, s, st, b)
}
/// a body in context c; w: something strict code forbids stands in front of it
pub open spec fn R_MBody(h: int, c: Cx, w: bool, a: int, s: Seq<ProgramPart>, b: int) -> bool {
    exists|st: Cx| #[trigger] R_BodyC(h, c, a, s, st, b) && (ON_STRICT && st.strict ==> !w)
}
/// parameters and body of f in context cf (parameters) and cb (body); w: the name is one strict code forbids
#[verifier::opaque]
pub open spec fn R_FnRest(h: int, cp: Cx, cb: Cx, a: int, ps: Seq<FunctionArg>, body: Seq<ProgramPart>, w: bool, b: int) -> bool {
    exists|k: int, st: Cx, cd: Cx| #[trigger] R_Formals(h, cp, a, ps, k) && #[trigger] R_BodyC(h, cd, k, body, st, b) && cd == c_asd(cb, simple_args(ps))
        && (ON_STRICT && st.strict ==> !w && !restr_args(ps))
}
/// a name strict code forbids
pub open spec fn badname(h: int, a: int) -> bool { restricted(txt(h, a)) || (tk(h, a) matches Token::Keyword(k) && k.sp_strict_reserved()) }
pub open spec fn fn_rest(h: int, c: Cx, cn: Cx, a: int, f: Function, b: int) -> bool {
    let cf = c_fn(c, !f.generator, f.is_async);
    match f.id {
        None => pu(h, a, Punct::OpenParen) && R_FnRest(h, cf, cf, a, f.params@, f.body@, false, b),
        Some(i) => !pu(h, a, Punct::OpenParen) && name_ok(h, cn, a) && !kw(h, a, Keyword::Let) && i@ == txt(h, a) && (ON_STRICT && c.strict ==> !restricted(txt(h, a)))
            && R_FnRest(h, cf, cf, nx(h, a), f.params@, f.body@, badname(h, a), b),
    }
}
pub open spec fn fn_head(h: int, c: Cx, decl: bool, a: int, f: Function, b: int) -> bool {
    let a0 = if f.is_async { nx(h, a) } else { a };
    let a1 = nx(h, a0);
    let cn = if decl { c } else { c_fn(c, !f.generator, f.is_async) };
    &&& f.is_async == cw(h, a, "async"@)
    &&& kw(h, a0, Keyword::Function)
    &&& f.generator ==> pu(h, a1, Punct::Asterisk)
    &&& fn_rest(h, c, cn, if f.generator { nx(h, a1) } else { a1 }, f, b)
}
#[verifier::opaque]
pub open spec fn R_FuncExpr(h: int, c: Cx, a: int, x: Expr, b: int) -> bool { x matches Expr::Function(f) && fn_head(h, c, false, a, f, b) }
#[verifier::opaque]
pub open spec fn R_FuncDecl(h: int, c: Cx, a: int, f: Function, b: int) -> bool { fn_head(h, c, true, a, f, b) }
/// parameters and body of a method
#[verifier::opaque]
pub open spec fn R_Method(h: int, c: Cx, a: int, v: PropertyValue, b: int) -> bool {
    v matches PropertyValue::Expr(Expr::Function(f)) && f.id is None && R_FnRest(h, c_fn(c, true, f.is_async), c_fn(c, !f.generator, f.is_async), a, f.params@, f.body@, false, b)
}
pub open spec fn vfn(v: PropertyValue) -> Function { v->Expr_0->Function_0 }
pub open spec fn mflags(v: PropertyValue, gen: bool, asy: bool) -> bool { vfn(v).generator == gen && vfn(v).is_async == asy }
pub open spec fn rest_arg(x: FunctionArg) -> bool { (x matches FunctionArg::Pat(p) && p is RestElement) || (x matches FunctionArg::Expr(e) && e is Spread) }
pub open spec fn getset(k: PropertyKind, v: PropertyValue) -> bool {
    &&& mflags(v, false, false)
    &&& k is Get ==> vfn(v).params@.len() == 0
    &&& k is Set ==> vfn(v).params@.len() == 1 && !rest_arg(vfn(v).params@[0])
}
// the words below are names, not reserved words (dependency fact: the tokenizer yields Ident for them)
pub axiom fn ax_word(h: int, i: int)
    ensures cw(h, i, "get"@) || cw(h, i, "set"@) || cw(h, i, "async"@) || cw(h, i, "as"@) || cw(h, i, "from"@) || cw(h, i, "of"@) ==> tk(h, i) is Ident,
        cw(h, i, "static"@) ==> tk(h, i) == Token::Keyword(Keyword::Static);
// ---- object literals ----
pub open spec fn qual(t: Token) -> bool { t is Ident || t is String || t is Boolean || t is Numeric || t is Null || t is Keyword || t == Token::Punct(Punct::OpenBracket) }
/// the case of R_Key for plain names
pub open spec fn word_key(h: int, a: int, q: PropertyKey) -> bool { tk(h, a) is Ident && (q matches PropertyKey::Expr(e) && is_id(e, txt(h, a))) }
pub open spec fn keyed(h: int, c: Cx, a: int, p: Property, b: int) -> bool {
    p.computed == pu(h, a, Punct::OpenBracket) && key_meth(h, c, a, p.key, p.value, b)
}
pub open spec fn key_meth(h: int, c: Cx, a: int, q: PropertyKey, v: PropertyValue, b: int) -> bool {
    word_key(h, a, q) && R_Method(h, c, nx(h, a), v, b) || exists|k: int| #[trigger] R_Key(h, c, a, q, k) && R_Method(h, c, k, v, b)
}
/// what follows the word async
pub open spec fn async_meth(h: int, c: Cx, a: int, p: Property, b: int) -> bool {
    if pu(h, a, Punct::Asterisk) { keyed(h, c, nx(h, a), p, b) && mflags(p.value, true, true) } else { keyed(h, c, a, p, b) && mflags(p.value, false, true) }
}
pub open spec fn key_val(h: int, c: Cx, a: int, q: PropertyKey, e: Expr, b: int) -> bool {
    word_key(h, a, q) && pu(h, nx(h, a), Punct::Colon) && R_Assign(h, c, nx(h, nx(h, a)), e, b)
        || exists|k: int| #[trigger] R_Key(h, c, a, q, k) && pu(h, k, Punct::Colon) && R_Assign(h, c, nx(h, k), e, b)
}
pub open spec fn is_async_key(h: int, a: int) -> bool {
    let a1 = nx(h, a);
    cw(h, a, "async"@) && !brk(h, a1) && !pu(h, a1, Punct::Colon) && !pu(h, a1, Punct::OpenParen) && !pu(h, a1, Punct::Comma) && !pu(h, a1, Punct::CloseBrace) && !pu(h, a1, Punct::Assign)
}
#[verifier::opaque]
pub open spec fn R_Prop(h: int, c: Cx, a: int, x: ObjectProperty, b: int) -> bool {
    let a1 = nx(h, a);
    x matches ObjectProperty::Property(p) && match p.kind {
        PropertyKind::Get => cw(h, a, "get"@) && qual(tk(h, a1)) && !p.method && !p.short_hand && keyed(h, c, a1, p, b) && getset(p.kind, p.value),
        PropertyKind::Set => cw(h, a, "set"@) && qual(tk(h, a1)) && !p.method && !p.short_hand && keyed(h, c, a1, p, b) && getset(p.kind, p.value),
        PropertyKind::Init => {
            ||| p.method && !p.short_hand && pu(h, a, Punct::Asterisk) && qual(tk(h, a1)) && keyed(h, c, a1, p, b) && mflags(p.value, true, false)
            ||| p.method && !p.short_hand && is_async_key(h, a) && async_meth(h, c, a1, p, b)
            ||| p.method && !p.short_hand && keyed(h, c, a, p, b) && mflags(p.value, false, false)
            ||| !p.method && !p.short_hand && p.computed == pu(h, a, Punct::OpenBracket) && (p.value matches PropertyValue::Expr(e) && key_val(h, c, a, p.key, e, b))
            ||| !p.method && p.short_hand && tk(h, a) is Ident && (p.key matches PropertyKey::Expr(i) && is_id(i, txt(h, a))) && p.computed == pu(h, a1, Punct::OpenBracket) && match p.value {
                    PropertyValue::Expr(e) => pu(h, a1, Punct::Assign) && R_Assign(h, c, nx(h, a1), e, b),
                    PropertyValue::None => b == a1 && !pu(h, a1, Punct::Assign) && !pu(h, a1, Punct::Colon) && !pu(h, a1, Punct::OpenParen),
                    _ => false,
                }
        },
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn el_Obj(h: int, c: Cx, m: int, x: ObjectProperty, b: int) -> bool {
    exists|k: int| #[trigger] tr(k) && (R_Prop(h, c, m, x, k) || (x matches ObjectProperty::Spread(e) && R_Spread(h, c, m, *e, k))) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBrace) && b == k)
}
//@list g2 Obj ObjectProperty
pub broadcast proof fn lemma_Obj1(h: int, c: Cx, m: int, x: ObjectProperty, k: int)
    requires #[trigger] R_Prop(h, c, m, x, k)
    ensures pu(h, k, Punct::Comma) ==> el_Obj(h, c, m, x, nx(h, k)), pu(h, k, Punct::CloseBrace) ==> el_Obj(h, c, m, x, k)
{ reveal(el_Obj); assert(tr(k)); }
pub broadcast proof fn lemma_Obj2(h: int, c: Cx, m: int, e: Box<Expr>, k: int)
    requires #[trigger] R_Spread(h, c, m, *e, k)
    ensures pu(h, k, Punct::Comma) ==> el_Obj(h, c, m, ObjectProperty::Spread(e), nx(h, k)), pu(h, k, Punct::CloseBrace) ==> el_Obj(h, c, m, ObjectProperty::Spread(e), k)
{ reveal(el_Obj); assert(tr(k)); }
//@broadcast g2::lemma_Obj1, g2::lemma_Obj2
pub open spec fn protokey(k: PropertyKey) -> bool {
    ||| k matches PropertyKey::Literal(Literal::String(s)) && (s@ == "'__proto__'"@ || s@ == "\"__proto__\""@)
    ||| k matches PropertyKey::Expr(Expr::Ident(s)) && s@ == "__proto__"@
}
/// sets the prototype of the object
pub open spec fn proto(x: ObjectProperty) -> bool {
    x matches ObjectProperty::Property(p) && p.kind is Init && !p.method && !p.short_hand && !p.computed && protokey(p.key)
}
pub open spec fn n_proto(s: Seq<ObjectProperty>) -> int decreases s.len() { if s.len() == 0 { 0 } else { n_proto(s.drop_last()) + if proto(s.last()) { 1int } else { 0int } } }
pub broadcast proof fn lemma_n_proto(s: Seq<ObjectProperty>, x: ObjectProperty) ensures #[trigger] n_proto(s.push(x)) == n_proto(s) + if proto(x) { 1int } else { 0int }
{ assert(s.push(x).drop_last() =~= s); }
//@broadcast g2::lemma_n_proto
#[verifier::opaque]
pub open spec fn R_Obj(h: int, c: Cx, a: int, x: Expr, b: int) -> bool {
    pu(h, a, Punct::OpenBrace) && (x matches Expr::Object(s) && (ON_EARLY ==> n_proto(s@) <= 1) && E_Obj(h, c, nx(h, a), s@, b))
}
pub open spec fn E_Obj(h: int, c: Cx, a: int, s: Seq<ObjectProperty>, b: int) -> bool { exists|m: int| #[trigger] L_Obj(h, c, a, s, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) }
// ---- classes ----
pub open spec fn key_is(k: PropertyKey, s: Seq<char>) -> bool {
    ||| k matches PropertyKey::Literal(Literal::String(t)) && t@ == s
    ||| k matches PropertyKey::Expr(Expr::Ident(t)) && t@ == s
    ||| k matches PropertyKey::Pat(Pat::Identifier(t)) && t@ == s
}
pub open spec fn prop_is(k: PropertyKey, s: Seq<char>) -> bool {
    match k { PropertyKey::Literal(Literal::String(t)) => substr(t@, 1, blen(t@) - 1) == s, _ => key_is(k, s) }
}
pub open spec fn qual2(t: Token) -> bool { t is Ident || t is Keyword || tlit(t) || t == Token::Punct(Punct::OpenBracket) }
pub open spec fn tlit(t: Token) -> bool { t is Numeric || t is String || t is RegEx || t is Template || t is Boolean || t is Null }
pub open spec fn cls_el(h: int, c: Cx, st: bool, a: int, p: Property, b: int) -> bool {
    let a1 = nx(h, a);
    let ctor = !p.computed && prop_is(p.key, "constructor"@) && !st;
    &&& !p.short_hand
    &&& st && !p.computed ==> !prop_is(p.key, "prototype"@)
    &&& match p.kind {
        PropertyKind::Get => !ctor && cw(h, a, "get"@) && tk(h, a) is Ident && qual2(tk(h, a1)) && !p.method && keyed(h, c, a1, p, b) && getset(p.kind, p.value),
        PropertyKind::Set => !ctor && cw(h, a, "set"@) && tk(h, a) is Ident && qual2(tk(h, a1)) && !p.method && keyed(h, c, a1, p, b) && getset(p.kind, p.value),
        PropertyKind::Method => !ctor && p.method && {
            ||| pu(h, a, Punct::Asterisk) && qual2(tk(h, a1)) && keyed(h, c, a1, p, b) && mflags(p.value, true, false)
            ||| cw(h, a, "async"@) && !brk(h, a1) && !pu(h, a1, Punct::OpenParen) && async_meth(h, c, a1, p, b)
            ||| keyed(h, c, a, p, b) && mflags(p.value, false, false)
        },
        PropertyKind::Ctor => ctor && p.method && keyed(h, c, a, p, b) && mflags(p.value, false, false),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn R_ClsEl(h: int, c: Cx, a: int, p: Property, b: int) -> bool {
    ||| cls_el(h, c, false, a, p, b)
    ||| cw(h, a, "static"@) && (qual2(tk(h, nx(h, a))) || pu(h, nx(h, a), Punct::Asterisk)) && cls_el(h, c, true, nx(h, a), p, b)
}
/// class elements with semicolons anywhere between them (least relation closed under the three rules)
pub uninterp spec fn L_Cls(h: int, c: Cx, a: int, s: Seq<Property>, b: int) -> bool;
pub broadcast axiom fn rule_Cls0(h: int, c: Cx, a: int) ensures #[trigger] L_Cls(h, c, a, Seq::<Property>::empty(), a);
pub broadcast axiom fn rule_Cls1(h: int, c: Cx, a: int, s: Seq<Property>, m: int)
    requires #[trigger] L_Cls(h, c, a, s, m), pu(h, m, Punct::SemiColon) ensures L_Cls(h, c, a, s, #[trigger] nx(h, m));
pub broadcast axiom fn rule_Cls2(h: int, c: Cx, a: int, s: Seq<Property>, m: int, x: Property, b: int)
    requires #[trigger] L_Cls(h, c, a, s, m), #[trigger] R_ClsEl(h, c, m, x, b) ensures L_Cls(h, c, a, s.push(x), b);
//@broadcast g2::rule_Cls0, g2::rule_Cls1, g2::rule_Cls2
pub open spec fn n_ctor(s: Seq<Property>) -> int decreases s.len() { if s.len() == 0 { 0 } else { n_ctor(s.drop_last()) + if s.last().kind is Ctor { 1int } else { 0int } } }
pub broadcast proof fn lemma_n_ctor(s: Seq<Property>, x: Property) ensures #[trigger] n_ctor(s.push(x)) == n_ctor(s) + if x.kind is Ctor { 1int } else { 0int }
{ assert(s.push(x).drop_last() =~= s); }
//@broadcast g2::lemma_n_ctor
#[verifier::opaque]
pub open spec fn R_ClsBody(h: int, c: Cx, a: int, s: Seq<Property>, b: int) -> bool {
    pu(h, a, Punct::OpenBrace) && (ON_EARLY ==> n_ctor(s) <= 1) && E_Cls(h, c, nx(h, a), s, b)
}
pub open spec fn E_Cls(h: int, c: Cx, a: int, s: Seq<Property>, b: int) -> bool { exists|m: int| #[trigger] L_Cls(h, c, a, s, m) && pu(h, m, Punct::CloseBrace) && b == nx(h, m) }
pub open spec fn cls_tail(h: int, c: Cx, a: int, k: Class, b: int) -> bool {
    match k.super_class {
        None => !cw(h, a, "extends"@) && R_ClsBody(h, c, a, k.body@, b),
        Some(s) => cw(h, a, "extends"@) && ext_tail(h, c, nx(h, a), *s, k.body@, b),
    }
}
pub open spec fn ext_tail(h: int, c: Cx, a: int, s: Expr, body: Seq<Property>, b: int) -> bool { exists|m: int| #[trigger] R_Call(h, c, a, s, m) && R_ClsBody(h, c, m, body, b) }
#[verifier::opaque]
pub open spec fn R_Class(h: int, c: Cx, a: int, k: Class, b: int) -> bool {
    let cs = c_str(c, true);
    let a1 = nx(h, a);
    kw(h, a, Keyword::Class) && match k.id {
        None => (cw(h, a1, "extends"@) || !(tk(h, a1) is Ident)) && cls_tail(h, cs, a1, k, b),
        Some(i) => !cw(h, a1, "extends"@) && name_ok(h, cs, a1) && !kw(h, a1, Keyword::Let) && i@ == txt(h, a1) && (ON_STRICT ==> !restricted(txt(h, a1))) && cls_tail(h, cs, nx(h, a1), k, b),
    }
}
}
pub use g2::*;
