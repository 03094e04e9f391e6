// ---- parser state: ghost view and well-formedness ----
/// the comments among raw tokens 0..=i in order, as they must be handed to the comment handler
pub uninterp spec fn cmts(h: int, i: int) -> Seq<ress::Item>;
pub open spec fn cm_item(h: int, i: int) -> ress::Item {
    ress::Item { span: sp(h, i), token: ress::tokens::Token::Comment(ress::comments::mk_comment(txt(h, i), cm_kind(tk(h, i)), None)) }
}
pub open spec fn cm_kind(t: Token) -> ress::CommentKind {
    if t == Token::Comment(ress::refs::tokens::Comment::MultiLine) { ress::CommentKind::Multi }
    else if t == Token::Comment(ress::refs::tokens::Comment::SingleLine) { ress::CommentKind::Single }
    else { ress::CommentKind::Html }
}
pub axiom fn ax_cmts(h: int, i: int)
    ensures
        cmts(h, -1) == Seq::<ress::Item>::empty(),
        0 <= i < n(h) && tk(h, i) is Comment ==> cmts(h, i) == cmts(h, i - 1).push(cm_item(h, i)),
        0 <= i < n(h) && !(tk(h, i) is Comment) ==> cmts(h, i) == cmts(h, i - 1);
//@broadcast stream::ax_nx, stream::ax_eof, stream::ax_span, stream::ax_kw_txt, stream::ax_lex, stream::lemma_shr1
// ---- positions ----
/// the line table of a text
#[verifier::opaque]
pub open spec fn lines_ok(l: Seq<Line>, s: Seq<char>) -> bool {
    let m = s.len() as int;
    &&& l.len() == lno(s, m) + 1
    &&& l[lno(s, m)].start == lst(s, m)
    &&& forall|k: int| #![trigger eol(s, k)] 0 <= k < m && eol(s, k) ==> l[lno(s, k)].start == lst(s, k) && l[lno(s, k)].end == bo(s, k + 1) - 1
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() - 1 ==> l[i].end < l[j].end
}
/// the table of the lines that end before character n
#[verifier::opaque]
pub open spec fn lines_to(v: Vec<Line>, s: Seq<char>, n: int) -> bool {
    &&& v@.len() == lno(s, n)
    &&& forall|k: int| #![trigger eol(s, k)] 0 <= k < n && eol(s, k) ==> v@[lno(s, k)].start == lst(s, k) && v@[lno(s, k)].end == bo(s, k + 1) - 1
    &&& forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).end < bo(s, n)
    &&& forall|i: int, j: int| #![trigger v@[i], v@[j]] 0 <= i < j < v@.len() ==> v@[i].end < v@[j].end
}
pub proof fn lemma_ul(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b
    ensures bo(s, b) - bo(s, a) >= b - a, lno(s, a) <= lno(s, b), 0 <= lno(s, a) <= a, lst(s, a) <= bo(s, a), 0 <= lst(s, a)
    decreases b + b - a
{
    if a < b { lemma_ul(s, a, b - 1); } else if a > 0 { lemma_ul(s, a - 1, a - 1); assert(bo(s, a) == bo(s, a - 1) + ul(s[a - 1])); }
}
/// the line of character k in the table
pub proof fn lemma_line(l: Seq<Line>, s: Seq<char>, k: int)
    requires lines_ok(l, s), 0 <= k <= s.len()
    ensures 0 <= lno(s, k) < l.len(), l[lno(s, k)].start == lst(s, k), lno(s, k) + 1 < l.len() ==> bo(s, k) <= l[lno(s, k)].end
    decreases s.len() - k
{
    reveal(lines_ok);
    lemma_ul(s, k, s.len() as int);
    if k < s.len() {
        lemma_ul(s, k, k + 1);
        if eol(s, k) { lemma_ul(s, k + 1, s.len() as int); } else { lemma_line(l, s, k + 1); }
    }
}
pub proof fn lemma_line_before(l: Seq<Line>, s: Seq<char>, k: int)
    requires lines_ok(l, s), 0 <= k <= s.len()
    ensures lno(s, k) > 0 ==> l[lno(s, k) - 1].end < bo(s, k)
    decreases k
{
    reveal(lines_ok);
    if k > 0 { lemma_ul(s, k - 1, k); lemma_ul(s, k, s.len() as int); if eol(s, k - 1) {} else { lemma_line_before(l, s, k - 1); } }
}
/// what a search in the table must find for byte offset b
pub proof fn lemma_find(l: Seq<Line>, s: Seq<char>, b: int, r: int)
    requires lines_ok(l, s), cb(s, b), 0 <= r < l.len(), r > 0 ==> l[r - 1].end < b, r + 1 < l.len() ==> b <= l[r].end
    ensures lc(s, b) == (r + 1, b - l[r].start), l[r].start <= b
{
    let k = choose|k: int| 0 <= k <= s.len() && #[trigger] bo(s, k) == b;
    lemma_line(l, s, k);
    lemma_line_before(l, s, k);
    lemma_ul(s, k, k);
    reveal(lines_ok);
    let r0 = lno(s, k);
    if r < r0 { if r < r0 - 1 { assert(l[r].end < l[r0 - 1].end); } assert(false); }
    if r > r0 { if r0 < r - 1 { assert(l[r0].end < l[r - 1].end); } assert(false); }
}
/// the position of an error that has one is that of a token read by then
pub open spec fn err_ok<CH: CommentHandler + Sized>(x: &Parser<CH>, e: Error) -> bool {
    match e {
        Error::UnexpectedToken(p, _) => pos_ok(x.h(), x.pos(), p), Error::UnableToReinterpret(p, _, _) => pos_ok(x.h(), x.pos(), p), Error::Redecl(p, _) => pos_ok(x.h(), x.pos(), p),
        Error::OperationError(p, _) => pos_ok(x.h(), x.pos(), p), Error::InvalidGetterParams(p) => pos_ok(x.h(), x.pos(), p), Error::InvalidSetterParams(p) => pos_ok(x.h(), x.pos(), p),
        Error::NonStrictFeatureInStrictContext(p, _) => pos_ok(x.h(), x.pos(), p),
        _ => true,
    }
}
/// a token has been consumed
pub open spec fn begun<CH: CommentHandler + Sized>(x: &Parser<CH>) -> bool { x.pos() > nx(x.h(), -1) }
/// the item is a token that has been read
pub open spec fn tok_of<CH: CommentHandler + Sized>(x: &Parser<CH>, t: Item) -> bool { exists|i: int| 0 <= i <= x.pos() && !(tk(x.h(), i) is Comment) && t.token == tk(x.h(), i) && t.span == #[trigger] sp(x.h(), i) }
//@broadcast pl::lemma_prevp
pub mod pl { use vstd::prelude::*; use super::*;
/// line and column of token i
#[verifier::opaque]
pub open spec fn tpos(h: int, i: int) -> Position { pos_of(lc(src(h), sp(h, i).start as int)) }
pub open spec fn pos_of(p: (int, int)) -> Position { Position { line: p.0 as usize, column: p.1 as usize } }
/// p is the position of a token that has been read when the next one is m
pub open spec fn pos_ok(h: int, m: int, p: Position) -> bool { exists|i: int| 0 <= i <= m && !(tk(h, i) is Comment) && p == #[trigger] tpos(h, i) }
/// p is the position of the last token consumed
#[verifier::opaque]
pub open spec fn prevp(h: int, m: int, p: Position) -> bool { m > nx(h, -1) ==> exists|q: int| 0 <= q < m && !(tk(h, q) is Comment) && nx(h, q) == m && p == #[trigger] tpos(h, q) }
pub broadcast proof fn lemma_prevp(h: int, m: int, p: Position)
    requires #[trigger] prevp(h, m, p), m > nx(h, -1)
    ensures pos_ok(h, m, p)
{ reveal(prevp); }
}
pub use pl::*;
impl<CH: CommentHandler + Sized> Parser<CH> {
    /// the line table and the two positions kept
    pub open spec fn posw(&self) -> bool {
        &&& lines_ok(self.lines@, src(self.h()))
        &&& self.pos() >= 0 ==> self.look_ahead_position == tpos(self.h(), self.pos()) && prevp(self.h(), self.pos(), self.current_position) && self.pos() >= nx(self.h(), -1)
    }
    pub open spec fn h(&self) -> int { self.scanner.st@.h }
    pub open spec fn pos(&self) -> int { self.scanner.st@.i - 1 }
    pub open spec fn mu(&self) -> int { n(self.scanner.st@.h) - (self.scanner.st@.i - 1) + if self.found_eof { 0int } else { 1int } }
    pub open spec fn tol(&self) -> bool { self.config.tolerant }
    pub open spec fn ismod(&self) -> bool { self.context.is_module }
    pub open spec fn lns(&self) -> Seq<Line> { self.lines@ }
    /// the context parameters of the grammar; those whose toggle is off are masked
    pub open spec fn cx(&self) -> Cx {
        if ON_CTX || ON_EARLY || ON_STRICT {
            Cx { module: ON_CTX && self.context.is_module, allow_in: ON_CTX && self.context.allow_in, yld: ON_CTX && self.context.allow_yield,
                 awt: ON_CTX && self.context.r#await, in_fn: (ON_CTX || ON_EARLY) && self.context.in_function_body,
                 in_iter: ON_EARLY && self.context.in_iteration, in_switch: ON_EARLY && self.context.in_switch,
                 labels: if ON_EARLY { self.context.label_set@ } else { Set::empty() },
                 strict: ON_STRICT && self.context.strict, asd: ON_STRICT && self.context.allow_strict_directive }
        } else { cx_any() }
    }
    /// parser invariant that also holds before the first token has been read
    pub open spec fn wf0(&self) -> bool {
        &&& wfp(self.scanner, self.look_ahead, self.lines, self.found_eof, self.context.has_line_term, self.comment_handler)
        &&& n(self.h()) >= 1
        &&& self.scanner.stream@ == src(self.h())
        &&& 1 <= self.lines@.len() <= 0x8000_0000_0000_0000
        &&& -1 <= self.pos() < n(self.h())
        &&& (ON_POS ==> self.posw())
        &&& (self.pos() >= 0 ==> self.look_ahead == item(self.h(), self.pos()) && !(tk(self.h(), self.pos()) is Comment))
    }
    /// state while next_item skips comments: pos() is the raw index of the last scanned token
    pub open spec fn wf1(&self) -> bool {
        let st = self.scanner.st@; let h = st.h; let i = st.i - 1;
        &&& st.good
        &&& n(h) >= 1
        &&& -1 <= i < n(h)
        &&& self.scanner.stream@ == src(h)
        &&& self.scanner.eof == (i == n(h) - 1)
        &&& 1 <= self.lines@.len() <= 0x8000_0000_0000_0000
        &&& (ON_COMMENTS && CH::records() ==> self.comment_handler.log() == self.comment_handler.base() + cmts(h, i))
    }
    pub open spec fn same_but_scan(&self, o: &Self) -> bool {
        &&& (ON_POS ==> self.current_position == o.current_position && self.look_ahead_position == o.look_ahead_position)
        &&& self.config == o.config && self.lines == o.lines && self.look_ahead == o.look_ahead && self.found_eof == o.found_eof
        &&& self.scanner.st@.h == o.scanner.st@.h
        &&& (ON_COMMENTS && CH::records() ==> self.comment_handler.base() == o.comment_handler.base())
        &&& cov_eq(self, o) && ctx_eq(self, o) && self.context.past_prolog == o.context.past_prolog
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.wf0()
        &&& self.pos() >= 0
        &&& ON_G ==> !self.config.tolerant
    }
}
#[verifier::opaque]
pub open spec fn wfp<CH: CommentHandler>(scanner: Scanner, look_ahead: Item, lines: Vec<Line>, found_eof: bool, has_line_term: bool, comment_handler: CH) -> bool {
    let st = scanner.st@; let h = st.h; let i = st.i - 1;
    &&& st.good
    &&& scanner.stream@ == src(h)
    &&& scanner.eof == (i == n(h) - 1)
    &&& 1 <= lines@.len() <= 0x8000_0000_0000_0000
    &&& (i >= 0 && !found_eof ==> (has_line_term == nl(h, i)))
    &&& (i < 0 ==> look_ahead.span.start == 0 && look_ahead.span.end == 0 && look_ahead.token is EoF && !found_eof)
    &&& (found_eof ==> i == n(h) - 1)
    &&& (ON_COMMENTS && CH::records() ==> comment_handler.log() == comment_handler.base() + cmts(h, i))
}
pub open spec fn fr<CH: CommentHandler + Sized>(a: &Parser<CH>, b: &Parser<CH>) -> bool {
    fr0(a, b) && a.context.past_prolog == b.context.past_prolog
}
/// the frame of the functions that walk the program's own items
pub open spec fn fr0<CH: CommentHandler + Sized>(a: &Parser<CH>, b: &Parser<CH>) -> bool {
    &&& b.h() == a.h()
    &&& b.tol() == a.tol()
    &&& b.ismod() == a.ismod()
    &&& b.lns() == a.lns()
    &&& a.pos() <= b.pos()
    &&& (ON_COMMENTS && CH::records() ==> b.comment_handler.base() == a.comment_handler.base())
}

pub open spec fn fresh(s: Scanner, l: Seq<Line>) -> bool {
    s.st@.i == 0 && s.st@.good && !s.eof && s.stream@ == src(s.st@.h) && 1 <= l.len() <= 0x8000_0000_0000_0000 && (ON_POS ==> lines_ok(l, src(s.st@.h)))
}

/// the contexts differ in strictness at most
pub open spec fn cx_ns(a: Cx, b: Cx) -> bool { b == Cx { strict: b.strict, ..a } }
/// the context a program starts in
pub open spec fn ctx0(c: Context, module: bool) -> bool {
    &&& c.is_module == module && c.strict == module && c.allow_in && c.allow_yield && c.allow_strict_directive
    &&& !c.r#await && !c.in_function_body && !c.in_iteration && !c.in_switch && c.label_set@ == Set::<Seq<char>>::empty() && !c.past_prolog
}
/// a parser that stands at the first token of the source s and has the given settings
pub open spec fn started<CH: CommentHandler + Sized>(p: &Parser<CH>, s: Seq<char>, tolerant: bool, module: bool) -> bool {
    src(p.h()) == s && p.pos() == nx(p.h(), -1) && p.tol() == tolerant && ctx0(p.context, module)
}
/// everything outside the context is untouched
pub open spec fn core_eq0<CH: CommentHandler>(a: &Parser<CH>, b: &Parser<CH>) -> bool {
    &&& a.scanner == b.scanner && a.look_ahead == b.look_ahead && a.lines == b.lines && a.found_eof == b.found_eof
    &&& a.config == b.config && a.comment_handler == b.comment_handler && a.context.has_line_term == b.context.has_line_term
}
pub open spec fn core_eq<CH: CommentHandler>(a: &Parser<CH>, b: &Parser<CH>) -> bool {
    core_eq0(a, b) && (ON_POS ==> a.current_position == b.current_position && a.look_ahead_position == b.look_ahead_position)
}
/// context fields that scope a construct
pub open spec fn ctx_eq<CH: CommentHandler>(a: &Parser<CH>, b: &Parser<CH>) -> bool {
    &&& a.context.is_module == b.context.is_module && a.context.allow_in == b.context.allow_in && a.context.allow_yield == b.context.allow_yield
    &&& a.context.r#await == b.context.r#await && a.context.strict == b.context.strict && a.context.in_function_body == b.context.in_function_body
    &&& a.context.in_iteration == b.context.in_iteration && a.context.in_switch == b.context.in_switch
    &&& a.context.allow_strict_directive == b.context.allow_strict_directive && a.context.label_set == b.context.label_set
}
/// context flags of the cover grammar
pub open spec fn cov_eq<CH: CommentHandler>(a: &Parser<CH>, b: &Parser<CH>) -> bool {
    &&& a.context.is_assignment_target == b.context.is_assignment_target && a.context.is_binding_element == b.context.is_binding_element
    &&& a.context.first_covert_initialized_name_error == b.context.first_covert_initialized_name_error
}

/// a string literal keeps its quotes
pub open spec fn lit_ok(e: Expr) -> bool {
    e matches Expr::Literal(Literal::String(s)) ==> blen(s@) >= 2 && slice_ok(s@, 1, blen(s@) - 1)
}

pub open spec fn key_ok(k: PropertyKey) -> bool {
    k matches PropertyKey::Literal(Literal::String(s)) ==> lit_ok(Expr::Literal(Literal::String(s)))
}
