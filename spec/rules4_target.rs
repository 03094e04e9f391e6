// ---- assignment targets (toggle ON_TARGET) ----
// The tree alone does not show brackets, so the relation speaks of the tokens too: Tgt(h, c, a, x) is the least
// relation closed under rule_Tgt, for a tree x that was read from token a on.
pub mod g4 {
use super::*;
pub uninterp spec fn Tgt(h: int, c: Cx, a: int, x: Expr) -> bool;
/// x, read from token a on, may be assigned to
pub open spec fn tgt_ok(h: int, c: Cx, a: int, x: Expr) -> bool {
    (x is Ident || x is Member || x is Array || x is Object) && upd_ok(c, x) && Tgt(h, c, a, x)
}
/// the same, or such a target with a default
pub open spec fn tgtd(h: int, c: Cx, a: int, x: Expr) -> bool {
    tgt_ok(h, c, a, x) || (x matches Expr::Assignment(e) && e.operator is Equal && (e.left matches AssignmentLeft::Expr(l) && tgt_ok(h, c, a, *l)))
}
pub open spec fn plain(x: Expr) -> bool { x is Ident || x is Member }
/// the argument of an update operator; arrow parameters end before a `=>` and so end up as no expression
pub open spec fn upd_tgt(x: Expr) -> bool { ON_TARGET ==> plain(x) || x is ArrowParamPlaceHolder }
/// the left side of an assignment with the given operator
pub open spec fn asg_tgt(h: int, c: Cx, a: int, l: Expr, o: AssignmentOperator) -> bool {
    ON_TARGET ==> tgt_ok(h, c, a, l) && (!plain(l) ==> o is Equal)
}
pub open spec fn head_tgt(h: int, c: Cx, a: int, l: Expr) -> bool { ON_TARGET ==> tgt_ok(h, c, a, l) }
#[verifier::opaque]
pub open spec fn B_Tgt(h: int, c: Cx, a: int, x: Expr) -> bool {
    match x {
        Expr::Ident(_) => upd_ok(c, x),
        Expr::Member(_) => true,
        Expr::Array(s) => pu(h, a, Punct::OpenBracket) && exists|m: int| #[trigger] L_TArr(h, c, nx(h, a), s@, m) && pu(h, m, Punct::CloseBracket),
        Expr::Object(s) => pu(h, a, Punct::OpenBrace) && exists|m: int| #[trigger] L_TObj(h, c, nx(h, a), s@, m) && pu(h, m, Punct::CloseBrace),
        _ => false,
    }
}
pub broadcast axiom fn rule_Tgt(h: int, c: Cx, a: int, x: Expr) requires B_Tgt(h, c, a, x) ensures #[trigger] Tgt(h, c, a, x);
/// `...` before a target
pub open spec fn spread_tgt(h: int, c: Cx, a: int, x: Expr) -> bool { x matches Expr::Spread(e) && tgt_ok(h, c, nx(h, a), *e) }
#[verifier::opaque]
pub open spec fn el_TArr(h: int, c: Cx, m: int, x: Option<Expr>, b: int) -> bool {
    match x {
        None => pu(h, m, Punct::Comma) && b == nx(h, m),
        Some(e) => {
            ||| exists|k: int| #[trigger] R_Assign(h, c, m, e, k) && tgtd(h, c, m, e) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBracket) && b == k)
            ||| R_Spread(h, c, m, e, b) && spread_tgt(h, c, m, e) && pu(h, b, Punct::CloseBracket)
        },
    }
}
//@list g4 TArr Option<Expr>
pub broadcast proof fn lemma_TA1(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int)
    requires #[trigger] L_TArr(h, c, a, s, m), pu(h, m, Punct::Comma)
    ensures L_TArr(h, c, a, s.push(None), nx(h, m))
{ reveal(el_TArr); list_TArr_p(h, c, a, s, m, None, nx(h, m)); }
pub broadcast proof fn lemma_TA2(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, e: Expr, k: int)
    requires #[trigger] L_TArr(h, c, a, s, m), #[trigger] R_Assign(h, c, m, e, k), tgtd(h, c, m, e)
    ensures pu(h, k, Punct::Comma) ==> L_TArr(h, c, a, s.push(Some(e)), nx(h, k)), pu(h, k, Punct::CloseBracket) ==> L_TArr(h, c, a, s.push(Some(e)), k)
{
    reveal(el_TArr);
    if pu(h, k, Punct::Comma) { list_TArr_p(h, c, a, s, m, Some(e), nx(h, k)); }
    if pu(h, k, Punct::CloseBracket) { list_TArr_p(h, c, a, s, m, Some(e), k); }
}
pub broadcast proof fn lemma_TA3(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, e: Expr, k: int)
    requires #[trigger] L_TArr(h, c, a, s, m), #[trigger] R_Spread(h, c, m, e, k), spread_tgt(h, c, m, e), pu(h, k, Punct::CloseBracket)
    ensures L_TArr(h, c, a, s.push(Some(e)), k)
{ reveal(el_TArr); list_TArr_p(h, c, a, s, m, Some(e), k); }
/// a property with a target as its value, or a name that may be assigned to (with or without default)
#[verifier::opaque]
pub open spec fn prop_tgt(h: int, c: Cx, x: ObjectProperty, b: int) -> bool {
    x matches ObjectProperty::Property(p) && p.kind is Init && !p.method && {
        if p.short_hand { p.key matches PropertyKey::Expr(i) && upd_ok(c, i) }
        else { p.value matches PropertyValue::Expr(e) && exists|k: int| #[trigger] R_Assign(h, c, nx(h, k), e, b) && pu(h, k, Punct::Colon) && tgtd(h, c, nx(h, k), e) }
    }
}
#[verifier::opaque]
pub open spec fn el_TObj(h: int, c: Cx, m: int, x: ObjectProperty, b: int) -> bool {
    ||| exists|k: int| #[trigger] R_Prop(h, c, m, x, k) && prop_tgt(h, c, x, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBrace) && b == k)
    ||| x matches ObjectProperty::Spread(e) && R_Spread(h, c, m, *e, b) && spread_tgt(h, c, m, *e) && (*e matches Expr::Spread(y) && plain(*y)) && pu(h, b, Punct::CloseBrace)
}
//@list g4 TObj ObjectProperty
pub broadcast proof fn lemma_TO1(h: int, c: Cx, a: int, s: Seq<ObjectProperty>, m: int, x: ObjectProperty, k: int)
    requires #[trigger] L_TObj(h, c, a, s, m), #[trigger] R_Prop(h, c, m, x, k), prop_tgt(h, c, x, k)
    ensures pu(h, k, Punct::Comma) ==> L_TObj(h, c, a, s.push(x), nx(h, k)), pu(h, k, Punct::CloseBrace) ==> L_TObj(h, c, a, s.push(x), k)
{
    reveal(el_TObj);
    if pu(h, k, Punct::Comma) { list_TObj_p(h, c, a, s, m, x, nx(h, k)); }
    if pu(h, k, Punct::CloseBrace) { list_TObj_p(h, c, a, s, m, x, k); }
}
pub broadcast proof fn lemma_TO2(h: int, c: Cx, a: int, s: Seq<ObjectProperty>, m: int, e: Box<Expr>, k: int)
    requires #[trigger] L_TObj(h, c, a, s, m), #[trigger] R_Spread(h, c, m, *e, k), spread_tgt(h, c, m, *e), *e matches Expr::Spread(y) && plain(*y), pu(h, k, Punct::CloseBrace)
    ensures L_TObj(h, c, a, s.push(ObjectProperty::Spread(e)), k)
{ reveal(el_TObj); list_TObj_p(h, c, a, s, m, ObjectProperty::Spread(e), k); }
pub broadcast proof fn lemma_TO3(h: int, c: Cx, a: int, s: Vec<ObjectProperty>, m: int)
    requires #[trigger] L_TObj(h, c, nx(h, a), s@, m), pu(h, a, Punct::OpenBrace), pu(h, m, Punct::CloseBrace)
    ensures #[trigger] Tgt(h, c, a, Expr::Object(s))
{ let x = Expr::Object(s); assert(x->Object_0@ == s@); reveal(B_Tgt); rule_Tgt(h, c, a, x); }
// ---- what may be bound by the parameters of an arrow function ----
pub uninterp spec fn Bnd(h: int, c: Cx, a: int, x: Expr) -> bool;
pub open spec fn bnd_ok(h: int, c: Cx, a: int, x: Expr) -> bool { (x is Ident || x is Array || x is Object) && Bnd(h, c, a, x) }
/// the same with a default
pub open spec fn bndd(h: int, c: Cx, a: int, x: Expr) -> bool {
    bnd_ok(h, c, a, x) || (x matches Expr::Assignment(e) && e.operator is Equal && (e.left matches AssignmentLeft::Expr(l) && bnd_ok(h, c, a, *l)))
}
#[verifier::opaque]
pub open spec fn B_Bnd(h: int, c: Cx, a: int, x: Expr) -> bool {
    match x {
        Expr::Ident(_) => is_id(x, txt(h, a)) && upd_ok(c, x),
        Expr::Array(s) => pu(h, a, Punct::OpenBracket) && exists|m: int| #[trigger] L_BArr(h, c, nx(h, a), s@, m) && pu(h, m, Punct::CloseBracket),
        Expr::Object(s) => pu(h, a, Punct::OpenBrace) && exists|m: int| #[trigger] L_BObj(h, c, nx(h, a), s@, m) && pu(h, m, Punct::CloseBrace),
        _ => false,
    }
}
pub broadcast axiom fn rule_Bnd(h: int, c: Cx, a: int, x: Expr) requires B_Bnd(h, c, a, x) ensures #[trigger] Bnd(h, c, a, x);
/// `...` before a binding
pub open spec fn spread_bnd(h: int, c: Cx, a: int, x: Expr) -> bool { x matches Expr::Spread(e) && bnd_ok(h, c, nx(h, a), *e) }
#[verifier::opaque]
pub open spec fn el_BArr(h: int, c: Cx, m: int, x: Option<Expr>, b: int) -> bool {
    match x {
        None => pu(h, m, Punct::Comma) && b == nx(h, m),
        Some(e) => {
            ||| exists|k: int| #[trigger] R_Assign(h, c, m, e, k) && bndd(h, c, m, e) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBracket) && b == k)
            ||| R_Spread(h, c, m, e, b) && spread_bnd(h, c, m, e) && pu(h, b, Punct::CloseBracket)
        },
    }
}
//@list g4 BArr Option<Expr>
pub broadcast proof fn lemma_BA1(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int)
    requires #[trigger] L_BArr(h, c, a, s, m), pu(h, m, Punct::Comma)
    ensures L_BArr(h, c, a, s.push(None), nx(h, m))
{ reveal(el_BArr); list_BArr_p(h, c, a, s, m, None, nx(h, m)); }
pub broadcast proof fn lemma_BA2(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, e: Expr, k: int)
    requires #[trigger] L_BArr(h, c, a, s, m), #[trigger] R_Assign(h, c, m, e, k), bndd(h, c, m, e)
    ensures pu(h, k, Punct::Comma) ==> L_BArr(h, c, a, s.push(Some(e)), nx(h, k)), pu(h, k, Punct::CloseBracket) ==> L_BArr(h, c, a, s.push(Some(e)), k)
{
    reveal(el_BArr);
    if pu(h, k, Punct::Comma) { list_BArr_p(h, c, a, s, m, Some(e), nx(h, k)); }
    if pu(h, k, Punct::CloseBracket) { list_BArr_p(h, c, a, s, m, Some(e), k); }
}
pub broadcast proof fn lemma_BA3(h: int, c: Cx, a: int, s: Seq<Option<Expr>>, m: int, e: Expr, k: int)
    requires #[trigger] L_BArr(h, c, a, s, m), #[trigger] R_Spread(h, c, m, e, k), spread_bnd(h, c, m, e), pu(h, k, Punct::CloseBracket)
    ensures L_BArr(h, c, a, s.push(Some(e)), k)
{ reveal(el_BArr); list_BArr_p(h, c, a, s, m, Some(e), k); }
/// a property with a binding as its value, or a name (with or without default)
#[verifier::opaque]
pub open spec fn prop_bnd(h: int, c: Cx, x: ObjectProperty, b: int) -> bool {
    x matches ObjectProperty::Property(p) && p.kind is Init && !p.method && {
        if p.short_hand { p.key matches PropertyKey::Expr(i) && upd_ok(c, i) }
        else { p.value matches PropertyValue::Expr(e) && exists|k: int| #[trigger] R_Assign(h, c, nx(h, k), e, b) && pu(h, k, Punct::Colon) && bndd(h, c, nx(h, k), e) }
    }
}
#[verifier::opaque]
pub open spec fn el_BObj(h: int, c: Cx, m: int, x: ObjectProperty, b: int) -> bool {
    ||| exists|k: int| #[trigger] R_Prop(h, c, m, x, k) && prop_bnd(h, c, x, k) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseBrace) && b == k)
    ||| x matches ObjectProperty::Spread(e) && R_Spread(h, c, m, *e, b) && spread_bnd(h, c, m, *e) && (*e matches Expr::Spread(y) && *y is Ident) && pu(h, b, Punct::CloseBrace)
}
//@list g4 BObj ObjectProperty
pub broadcast proof fn lemma_BO1(h: int, c: Cx, a: int, s: Seq<ObjectProperty>, m: int, x: ObjectProperty, k: int)
    requires #[trigger] L_BObj(h, c, a, s, m), #[trigger] R_Prop(h, c, m, x, k), prop_bnd(h, c, x, k)
    ensures pu(h, k, Punct::Comma) ==> L_BObj(h, c, a, s.push(x), nx(h, k)), pu(h, k, Punct::CloseBrace) ==> L_BObj(h, c, a, s.push(x), k)
{
    reveal(el_BObj);
    if pu(h, k, Punct::Comma) { list_BObj_p(h, c, a, s, m, x, nx(h, k)); }
    if pu(h, k, Punct::CloseBrace) { list_BObj_p(h, c, a, s, m, x, k); }
}
pub broadcast proof fn lemma_BO2(h: int, c: Cx, a: int, s: Seq<ObjectProperty>, m: int, e: Box<Expr>, k: int)
    requires #[trigger] L_BObj(h, c, a, s, m), #[trigger] R_Spread(h, c, m, *e, k), spread_bnd(h, c, m, *e), *e matches Expr::Spread(y) && *y is Ident, pu(h, k, Punct::CloseBrace)
    ensures L_BObj(h, c, a, s.push(ObjectProperty::Spread(e)), k)
{ reveal(el_BObj); list_BObj_p(h, c, a, s, m, ObjectProperty::Spread(e), k); }
pub broadcast proof fn lemma_BO3(h: int, c: Cx, a: int, s: Vec<ObjectProperty>, m: int)
    requires #[trigger] L_BObj(h, c, nx(h, a), s@, m), pu(h, a, Punct::OpenBrace), pu(h, m, Punct::CloseBrace)
    ensures #[trigger] Bnd(h, c, a, Expr::Object(s))
{ let x = Expr::Object(s); assert(x->Object_0@ == s@); reveal(B_Bnd); rule_Bnd(h, c, a, x); }
/// a comma list of bindings
pub open spec fn L_Bnds(h: int, c: Cx, a: int, s: Seq<Expr>, b: int) -> bool decreases s.len() {
    if s.len() == 0 { b == a }
    else if s.len() == 1 { R_Assign(h, c, a, s[0], b) && bndd(h, c, a, s[0]) }
    else { exists|m: int| #[trigger] tr(m) && L_Bnds(h, c, a, s.drop_last(), m) && pu(h, m, Punct::Comma) && R_Assign(h, c, nx(h, m), s.last(), b) && bndd(h, c, nx(h, m), s.last()) }
}
pub broadcast proof fn lemma_BL1(h: int, c: Cx, a: int, x: Expr, b: int)
    requires R_Assign(h, c, a, x, b), bndd(h, c, a, x)
    ensures #[trigger] L_Bnds(h, c, a, seq![x], b)
{ assert(seq![x].len() == 1); assert(seq![x][0] == x); }
pub broadcast proof fn lemma_BL(h: int, c: Cx, a: int, s: Seq<Expr>, m: int, x: Expr, b: int)
    requires #[trigger] L_Bnds(h, c, a, s, m), s.len() >= 1, pu(h, m, Punct::Comma), #[trigger] R_Assign(h, c, nx(h, m), x, b), bndd(h, c, nx(h, m), x)
    ensures L_Bnds(h, c, a, s.push(x), b)
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); assert(tr(m) && L_Bnds(h, c, a, s.push(x).drop_last(), m)); }
#[verifier::opaque]
pub open spec fn el_BArg(h: int, c: Cx, m: int, x: Expr, b: int) -> bool {
    ||| exists|k: int| #[trigger] R_Assign(h, c, m, x, k) && bndd(h, c, m, x) && (pu(h, k, Punct::Comma) && b == nx(h, k) || pu(h, k, Punct::CloseParen) && b == k)
    ||| R_Spread(h, c, m, x, b) && spread_bnd(h, c, m, x) && pu(h, b, Punct::CloseParen)
}
//@list g4 BArg Expr
pub broadcast proof fn lemma_BG1(h: int, c: Cx, a: int, s: Seq<Expr>, m: int, e: Expr, k: int)
    requires #[trigger] L_BArg(h, c, a, s, m), #[trigger] R_Assign(h, c, m, e, k), bndd(h, c, m, e)
    ensures pu(h, k, Punct::Comma) ==> L_BArg(h, c, a, s.push(e), nx(h, k)), pu(h, k, Punct::CloseParen) ==> L_BArg(h, c, a, s.push(e), k)
{
    reveal(el_BArg);
    if pu(h, k, Punct::Comma) { list_BArg_p(h, c, a, s, m, e, nx(h, k)); }
    if pu(h, k, Punct::CloseParen) { list_BArg_p(h, c, a, s, m, e, k); }
}
pub broadcast proof fn lemma_BG2(h: int, c: Cx, a: int, s: Seq<Expr>, m: int, e: Expr, k: int)
    requires #[trigger] L_BArg(h, c, a, s, m), #[trigger] R_Spread(h, c, m, e, k), spread_bnd(h, c, m, e), pu(h, k, Punct::CloseParen)
    ensures L_BArg(h, c, a, s.push(e), k)
{ reveal(el_BArg); list_BArg_p(h, c, a, s, m, e, k); }
/// the bracketed arguments of `async`, when they turn out to be parameters
#[verifier::opaque]
pub open spec fn bnd_args(h: int, c: Cx, a: int, s: Seq<Expr>) -> bool { exists|m: int| #[trigger] L_BArg(h, c, nx(h, a), s, m) && pu(h, m, Punct::CloseParen) }
pub broadcast proof fn lemma_TA4(h: int, c: Cx, a: int, s: Vec<Option<Expr>>, m: int)
    requires #[trigger] L_TArr(h, c, nx(h, a), s@, m), pu(h, a, Punct::OpenBracket), pu(h, m, Punct::CloseBracket)
    ensures #[trigger] Tgt(h, c, a, Expr::Array(s))
{ let x = Expr::Array(s); assert(x->Array_0@ == s@); reveal(B_Tgt); rule_Tgt(h, c, a, x); }
pub broadcast proof fn lemma_BA4(h: int, c: Cx, a: int, s: Vec<Option<Expr>>, m: int)
    requires #[trigger] L_BArr(h, c, nx(h, a), s@, m), pu(h, a, Punct::OpenBracket), pu(h, m, Punct::CloseBracket)
    ensures #[trigger] Bnd(h, c, a, Expr::Array(s))
{ let x = Expr::Array(s); assert(x->Array_0@ == s@); reveal(B_Bnd); rule_Bnd(h, c, a, x); }
pub broadcast proof fn lemma_BG3(h: int, c: Cx, a: int, s: Seq<Expr>, m: int)
    requires #[trigger] L_BArg(h, c, nx(h, a), s, m), pu(h, m, Punct::CloseParen)
    ensures #[trigger] bnd_args(h, c, a, s)
{ reveal(bnd_args); }
pub broadcast proof fn lemma_BG4(h: int, c: Cx, a: int, s: Seq<Expr>)
    requires s.len() == 0, pu(h, nx(h, a), Punct::CloseParen)
    ensures #[trigger] bnd_args(h, c, a, s)
{ reveal(bnd_args); assert(s =~= Seq::empty()); list_BArg_0(h, c, nx(h, a)); }
}
pub use g4::*;
//@broadcast g4::rule_Tgt, g4::lemma_TA1, g4::lemma_TA2, g4::lemma_TA3, g4::lemma_TO1, g4::lemma_TO2, g4::lemma_TO3, g4::rule_Bnd, g4::lemma_BA1, g4::lemma_BA2, g4::lemma_BA3, g4::lemma_BO1, g4::lemma_BO2, g4::lemma_BO3, g4::lemma_BL1, g4::lemma_BL, g4::lemma_BG1, g4::lemma_BG2, g4::lemma_BG3, g4::lemma_BG4, g4::lemma_TA4, g4::lemma_BA4
