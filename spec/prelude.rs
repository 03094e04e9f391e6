// ---------------------------------------------------------------------------------------------
// Trusted model of the two dependencies (ress: token scanner, resast: AST node types) and of the
// few std operations vstd has no specification for.  The placeholders are filled in by
// compose.py from the sources of the pinned crates in the cargo registry on every run.
// ---------------------------------------------------------------------------------------------
pub mod ress {
    use vstd::prelude::*;
    pub use self::keywords::Keyword;
    pub use self::punct::Punct;
    pub use self::tokens::Span;
    pub use self::comments::{Comment, CommentKind};
    pub use self::tokens::Item;
    pub mod keywords {
        use vstd::prelude::*;
        use vstd::std_specs::cmp::*;
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub enum Keyword { @KEYWORDS@ }
        impl PartialEqSpecImpl for Keyword {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
        }
        impl Keyword {
            pub open spec fn sp_future_reserved(self) -> bool { @IS_FUTURE_RESERVED@ }
            #[verifier::external_body]
            pub fn is_future_reserved(self) -> (r: bool) ensures r == self.sp_future_reserved() { unimplemented!() }
            pub open spec fn sp_strict_reserved(self) -> bool { @IS_STRICT_RESERVED@ }
            #[verifier::external_body]
            pub fn is_strict_reserved(self) -> (r: bool) ensures r == self.sp_strict_reserved() { unimplemented!() }
            pub open spec fn sp_reserved(self) -> bool { @IS_RESERVED@ }
            #[verifier::external_body]
            pub fn is_reserved(self) -> (r: bool) ensures r == self.sp_reserved() { unimplemented!() }
        }
    }
    pub mod punct {
        use vstd::prelude::*;
        use vstd::std_specs::cmp::*;
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub enum Punct { @PUNCTS@ }
        impl PartialEqSpecImpl for Punct {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
        }
    }
    pub mod comments {
        use vstd::prelude::*;
        pub enum CommentKind { Single, Multi, Html }
        #[verifier::external_body]
        pub struct Comment { x: u8 }
        pub uninterp spec fn mk_comment(s: Seq<char>, k: CommentKind, t: Option<String>) -> Comment;
        impl Comment {
            #[verifier::external_body]
            pub fn from_parts(content: String, kind: CommentKind, tail_content: Option<String>) -> (r: Comment)
                ensures r == mk_comment(content@, kind, tail_content)
            { unimplemented!() }
        }
    }
    pub mod tokens {
        use vstd::prelude::*;
        use vstd::std_specs::cmp::*;
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct Span { pub start: usize, pub end: usize }
        impl PartialEqSpecImpl for Span {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
        }
        pub enum Token { Comment(super::comments::Comment), Other }
        pub struct Item { pub token: Token, pub span: Span }
    }
    pub mod refs {
        use vstd::prelude::*;
        pub use self::tokens::RefToken;
        use super::tokens::Span;
        use super::punct::Punct;
        use super::keywords::Keyword;
        pub mod tokens {
            use vstd::prelude::*;
            use vstd::std_specs::cmp::*;
            use super::super::punct::Punct;
            use super::super::keywords::Keyword;
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum StringLit { Double, Single }
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum Comment { SingleLine, MultiLine, Html }
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum Number { Dec, Bin, Hex, Oct }
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum Template { NoSub, Head, Body, Tail }
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum RefToken {
                Boolean(bool), EoF, Ident, Keyword(Keyword), Null, Numeric(Number), Punct(Punct),
                String(StringLit), RegEx, Template(Template), Comment(Comment),
            }
            impl PartialEqSpecImpl for StringLit { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
            impl PartialEqSpecImpl for Comment { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
            impl PartialEqSpecImpl for Number { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
            impl PartialEqSpecImpl for Template { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
            impl PartialEqSpecImpl for RefToken { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
            impl RefToken {
                pub fn is_bool(&self) -> (r: bool) ensures r == (*self is Boolean) { match self { RefToken::Boolean(_) => true, _ => false } }
                pub fn is_null(&self) -> (r: bool) ensures r == (*self is Null) { match self { RefToken::Null => true, _ => false } }
                pub fn is_comment(&self) -> (r: bool) ensures r == (*self is Comment) { match self { RefToken::Comment(_) => true, _ => false } }
                pub fn is_punct(&self) -> (r: bool) ensures r == (*self is Punct) { match self { RefToken::Punct(_) => true, _ => false } }
                pub fn matches_punct(&self, p: &Punct) -> (r: bool) ensures r == (*self == RefToken::Punct(*p)) { match self { RefToken::Punct(o) => *p == *o, _ => false } }
                pub fn is_keyword(&self) -> (r: bool) ensures r == (*self is Keyword) { match self { RefToken::Keyword(_) => true, _ => false } }
                pub fn is_ident(&self) -> (r: bool) ensures r == (*self is Ident) { match self { RefToken::Ident => true, _ => false } }
                pub fn matches_keyword(&self, k: &Keyword) -> (r: bool) ensures r == (*self == RefToken::Keyword(*k)) { match self { RefToken::Keyword(o) => *k == *o, _ => false } }
                pub fn is_template_tail(&self) -> (r: bool) ensures r == (*self == RefToken::Template(Template::Tail) || *self == RefToken::Template(Template::NoSub)) { match self { RefToken::Template(t) => *t == Template::Tail || *t == Template::NoSub, _ => false } }
                pub fn is_template_head(&self) -> (r: bool) ensures r == (*self == RefToken::Template(Template::Head) || *self == RefToken::Template(Template::NoSub)) { match self { RefToken::Template(t) => *t == Template::Head || *t == Template::NoSub, _ => false } }
                pub fn is_template_body(&self) -> (r: bool) ensures r == (*self == RefToken::Template(Template::Body)) { match self { RefToken::Template(t) => *t == Template::Body, _ => false } }
                pub fn is_literal(&self) -> (r: bool) ensures r == (*self is String || *self is Numeric || *self is Null || *self is RegEx || *self is Boolean || *self is Template) {
                    match self { RefToken::String(_) | RefToken::Numeric(_) | RefToken::Null | RefToken::RegEx | RefToken::Boolean(_) | RefToken::Template(_) => true, _ => false } }
                pub fn is_string(&self) -> (r: bool) ensures r == (*self is String) { match self { RefToken::String(_) => true, _ => false } }
                pub fn is_regex(&self) -> (r: bool) ensures r == (*self is RegEx) { match self { RefToken::RegEx => true, _ => false } }
                pub fn is_number(&self) -> (r: bool) ensures r == (*self is Numeric) { match self { RefToken::Numeric(_) => true, _ => false } }
                pub fn is_eof(&self) -> (r: bool) ensures r == (*self is EoF) { match self { RefToken::EoF => true, _ => false } }
                pub fn is_strict_reserved(&self) -> (r: bool) ensures r == (*self is Keyword && self->Keyword_0.sp_strict_reserved()) { match self { RefToken::Keyword(k) => k.is_strict_reserved(), _ => false } }
                pub fn is_restricted(&self) -> (r: bool) ensures r == (*self is Keyword && self->Keyword_0.sp_reserved()) { match self { RefToken::Keyword(k) => k.is_reserved(), _ => false } }
                pub fn is_future_reserved(&self) -> (r: bool) ensures r == (*self is Keyword && self->Keyword_0.sp_future_reserved()) { match self { RefToken::Keyword(k) => k.is_future_reserved(), _ => false } }
            }
        }
        use vstd::std_specs::cmp::*;
        #[derive(Clone, Copy, PartialEq)]
        pub struct RefItem { pub token: RefToken, pub span: Span }
        impl PartialEqSpecImpl for RefItem { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
        impl RefItem {
            pub fn is_string(&self) -> (r: bool) ensures r == (self.token is String) { self.token.is_string() }
            pub fn is_eof(&self) -> (r: bool) ensures r == (self.token is EoF) { self.token.is_eof() }
            pub fn is_template(&self) -> (r: bool) ensures r == (self.token is Template) {
                match self.token { RefToken::Template(_) => true, _ => false } }
        }
        // ---- the scanner: an opaque token stream `h` and a cursor ----
        pub struct Sst { pub h: int, pub i: int, pub good: bool }
        #[verifier::external_body]
        pub struct ScannerState { x: u8 }
        impl ScannerState { pub uninterp spec fn view(&self) -> Sst; }
        #[verifier::ext_equal]
        pub struct RefScanner { pub stream: String, pub eof: bool, pub cursor: usize, pub spans: Vec<Span>, pub pending_new_line: bool, pub st: Ghost<Sst> }
        impl RefScanner {
            #[verifier::external_body]
            pub fn new(text: impl crate::IntoString) -> (r: RefScanner)
                ensures r.stream@ == text.istr(), crate::src(r.st@.h) == text.istr(), r.st@.i == 0, r.st@.good, !r.eof, !r.pending_new_line,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn next(&mut self) -> (r: Option<RefItem>)
                ensures
                    final(self).stream == old(self).stream, final(self).st@.h == old(self).st@.h,
                    old(self).eof ==> r is None && final(self).eof && final(self).st@ == old(self).st@ && final(self).pending_new_line == old(self).pending_new_line,
                    !old(self).eof && old(self).st@.good ==> ({
                        let h = old(self).st@.h; let i = old(self).st@.i;
                        &&& 0 <= i < crate::n(h)
                        &&& r == Some(crate::item(h, i))
                        &&& final(self).st@ == (Sst { h, i: i + 1, good: true })
                        &&& final(self).eof == (i == crate::n(h) - 1)
                    }),
                    // after skip_comments the kind of the next token is still reliable except for
                    // '}' '/' and template pieces
                    !old(self).eof && !old(self).st@.good ==> r is Some && crate::peek_like(r->0.token, crate::tk(old(self).st@.h, old(self).st@.i)),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn look_ahead(&mut self) -> (r: Option<RefItem>)
                ensures
                    final(self).stream == old(self).stream, final(self).eof == old(self).eof, final(self).pending_new_line == old(self).pending_new_line,
                    final(self).st@.h == old(self).st@.h,
                    old(self).eof ==> r is None && final(self).st@ == old(self).st@,
                    !old(self).eof && old(self).st@.good ==> r == Some(crate::item(old(self).st@.h, old(self).st@.i)) && 0 <= old(self).st@.i < crate::n(old(self).st@.h),
                    // `{` / `}` push or pop the scanner's curly stack although nothing is consumed
                    final(self).st@.good ==> old(self).st@.good && final(self).st@ == old(self).st@,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn skip_comments(&mut self)
                ensures
                    final(self).stream == old(self).stream, final(self).st@.h == old(self).st@.h, !final(self).st@.good,
                    old(self).eof ==> final(self).eof,
                    old(self).st@.good && !old(self).eof ==> ({
                        let h = old(self).st@.h; let i = old(self).st@.i;
                        &&& final(self).st@.i == crate::nx(h, i - 1)
                        // the token behind the comments was read, too
                        &&& final(self).eof == (crate::nx(h, i - 1) == crate::n(h) - 1)
                    }),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn get_state(&self) -> (r: ScannerState) ensures r.view() == self.st@ { unimplemented!() }
            #[verifier::external_body]
            pub fn set_state(&mut self, state: ScannerState)
                ensures final(self).st@ == state.view(), final(self).stream == old(self).stream, final(self).eof == old(self).eof,
                    final(self).pending_new_line == old(self).pending_new_line,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn string_for(&self, span: &Span) -> (r: Option<String>)
                ensures crate::slice_ok(self.stream@, span.start as int, span.end as int) ==> r is Some && r->0@ == crate::substr(self.stream@, span.start as int, span.end as int),
            { unimplemented!() }
        }
    }
}
pub mod resast { pub mod prelude { use vstd::prelude::*; use vstd::std_specs::cmp::*;
@AST@
} }
global size_of usize == 8;
use ress::refs::tokens::{StringLit, Template, Number};
use ress::tokens::Span as SpanT;

pub mod stream { use vstd::prelude::*; use super::*;
// ---- opaque token stream h: everything about ress::Scanner the contracts rely on ----
pub uninterp spec fn src(h: int) -> Seq<char>;
pub uninterp spec fn n(h: int) -> int;
pub uninterp spec fn tk(h: int, i: int) -> Token;
pub uninterp spec fn sp(h: int, i: int) -> Span;
/// first non-comment index after i
pub uninterp spec fn nx(h: int, i: int) -> int;
/// a line terminator lies between non-comment token i and the non-comment token before it
pub uninterp spec fn nl(h: int, i: int) -> bool;
pub open spec fn item(h: int, i: int) -> Item { Item { token: tk(h, i), span: sp(h, i) } }
pub open spec fn txt(h: int, i: int) -> Seq<char> { substr(src(h), sp(h, i).start as int, sp(h, i).end as int) }
pub uninterp spec fn slice_ok(s: Seq<char>, a: int, b: int) -> bool;
pub uninterp spec fn substr(s: Seq<char>, a: int, b: int) -> Seq<char>;
pub open spec fn peek_like(t: Token, u: Token) -> bool {
    &&& (u is Ident || u is Keyword || u == Token::Punct(Punct::OpenParen) || u == Token::Punct(Punct::OpenBracket) || u == Token::Punct(Punct::OpenBrace)) ==> t == u
    &&& (t is Ident || t is Keyword || t == Token::Punct(Punct::OpenParen) || t == Token::Punct(Punct::OpenBracket) || t == Token::Punct(Punct::OpenBrace)) ==> t == u
}
pub open spec fn is_lt(c: char) -> bool { c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}' }
pub open spec fn has_lt(s: Seq<char>) -> bool { exists|k: int| 0 <= k < s.len() && is_lt(#[trigger] s[k]) }
/// end of the non-comment token i
pub open spec fn ende(h: int, i: int) -> int { if i < 0 { 0 } else { sp(h, i).end as int } }
pub broadcast axiom fn ax_nx(h: int, i: int)
    ensures
        n(h) >= 1,
        -1 <= i < n(h) - 1 ==> i < #[trigger] nx(h, i) && nx(h, i) <= n(h) - 1 && !(tk(h, nx(h, i)) is Comment),
        i >= n(h) - 1 ==> nx(h, i) == i;
pub axiom fn ax_nx_skip(h: int, i: int, j: int)
    requires -1 <= i < j < nx(h, i)
    ensures tk(h, j) is Comment;
/// the definition of nl: the text between the two tokens, comments included
pub axiom fn ax_nl(h: int, i: int)
    requires -1 <= i < n(h) - 1, i < 0 || !(tk(h, i) is Comment)
    ensures nl(h, nx(h, i)) == has_lt(substr(src(h), ende(h, i), sp(h, nx(h, i)).start as int));
pub broadcast axiom fn ax_eof(h: int, i: int)
    requires 0 <= i < n(h)
    ensures #[trigger] tk(h, i) is EoF <==> i == n(h) - 1;
pub axiom fn ax_len(h: int)
    ensures 1 <= n(h), blen(src(h)) <= 0x3fff_ffff_ffff_ffff, blen(src(h)) >= 0;
/// length in bytes
pub uninterp spec fn blen(s: Seq<char>) -> int;
pub broadcast axiom fn ax_span(h: int, i: int)
    requires 0 <= i < n(h)
    ensures
        #[trigger] sp(h, i).start <= sp(h, i).end <= blen(src(h)),
        slice_ok(src(h), sp(h, i).start as int, sp(h, i).end as int);
pub axiom fn ax_span_lt(h: int, i: int, j: int)
    requires 0 <= i < j < n(h)
    ensures sp(h, i).end <= sp(h, j).start,
        slice_ok(src(h), sp(h, i).start as int, sp(h, j).start as int),
        slice_ok(src(h), sp(h, i).end as int, sp(h, j).start as int);
pub axiom fn ax_span0(h: int, j: int)
    requires 0 <= j < n(h)
    ensures slice_ok(src(h), 0, sp(h, j).start as int);
/// source text of a keyword; ress matches keywords literally
pub uninterp spec fn kw_str(k: Keyword) -> Seq<char>;
pub broadcast axiom fn ax_kw_txt(h: int, i: int)
    requires 0 <= i < n(h)
    ensures #[trigger] tk(h, i) is Keyword ==> txt(h, i) == kw_str(tk(h, i)->Keyword_0);
pub uninterp spec fn rfind_at(s: Seq<char>, c: char) -> Option<int>;
/// the first character is one byte long
pub uninterp spec fn ascii_first(s: Seq<char>) -> bool;
/// shape of template and regular-expression tokens (lexical grammar of ress): one byte of opening
/// delimiter, `${` or a backtick at the end, a closing slash
pub broadcast axiom fn ax_lex(h: int, i: int)
    requires 0 <= i < n(h)
    ensures
        #[trigger] tk(h, i) is Template ==> blen(txt(h, i)) >= 3 || ((tk(h, i) == Token::Template(Template::Tail) || tk(h, i) == Token::Template(Template::NoSub)) && blen(txt(h, i)) >= 2),
        tk(h, i) == Token::Template(Template::Head) || tk(h, i) == Token::Template(Template::Body) ==> slice_ok(txt(h, i), 1, blen(txt(h, i)) - 2),
        tk(h, i) == Token::Template(Template::Tail) || tk(h, i) == Token::Template(Template::NoSub) ==> slice_ok(txt(h, i), 1, blen(txt(h, i)) - 1),
        tk(h, i) is String ==> blen(txt(h, i)) >= 2 && slice_ok(txt(h, i), 1, blen(txt(h, i)) - 1),
        tk(h, i) is RegEx ==> ascii_first(txt(h, i)) && rfind_at(txt(h, i), '/') is Some && rfind_at(txt(h, i), '/')->0 >= 1;
// ---- lines and columns ----
/// bytes of a character in UTF-8
pub open spec fn ul(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// byte offset of character k
pub open spec fn bo(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { bo(s, k - 1) + ul(s[k - 1]) } }
/// b is the byte offset of a character or of the end
pub open spec fn cb(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] bo(s, k) == b }
/// a line ends with character k
pub open spec fn eol(s: Seq<char>, k: int) -> bool {
    s[k] == '\n' || s[k] == '\u{2028}' || s[k] == '\u{2029}' || (s[k] == '\r' && !(k + 1 < s.len() && s[k + 1] == '\n'))
}
/// byte offset at which the line of character k starts, and the number of line ends before k
pub open spec fn lst(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else if eol(s, k - 1) { bo(s, k) } else { lst(s, k - 1) } }
pub open spec fn lno(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { lno(s, k - 1) + if eol(s, k - 1) { 1int } else { 0int } } }
/// line (from 1) and column (in bytes from 0) of the character at byte offset b
pub open spec fn lc(s: Seq<char>, b: int) -> (int, int) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] bo(s, k) == b; (lno(s, k) + 1, b - lst(s, k)) }
/// slicing a text cuts it at characters
pub axiom fn ax_slice(s: Seq<char>, a: int, b: int)
    requires slice_ok(s, a, b)
    ensures cb(s, a), cb(s, b);
pub broadcast proof fn lemma_shr1(x: usize) ensures #[trigger] (x >> 1usize) == x / 2 { assert(x >> 1usize == x / 2) by (bit_vector); }
pub broadcast axiom fn ax_punct_eq(a: Punct, b: Punct) ensures #[trigger] ax_pe(a, b) == (a == b);
pub uninterp spec fn ax_pe(a: Punct, b: Punct) -> bool;

}
pub use stream::*;
// ---- std helpers the extractor's edit rules refer to ----
pub trait IntoString { spec fn istr(&self) -> Seq<char>; fn into(self) -> (r: String) where Self: Sized ensures r@ == self.istr(); }
impl IntoString for &str { open spec fn istr(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn into(self) -> (r: String) { unimplemented!() } }
impl IntoString for String { open spec fn istr(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl IntoString for &String { open spec fn istr(&self) -> Seq<char> { (**self)@ } #[verifier::external_body] fn into(self) -> (r: String) { unimplemented!() } }
/// `to_string` (the composer renames the calls)
pub trait Ts { spec fn tsv(&self) -> Seq<char>; fn ts(&self) -> (r: String) ensures r@ == self.tsv(); }
impl Ts for str { open spec fn tsv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn ts(&self) -> (r: String) { unimplemented!() } }
impl Ts for String { open spec fn tsv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn ts(&self) -> (r: String) { unimplemented!() } }
impl Ts for ress::Keyword { open spec fn tsv(&self) -> Seq<char> { crate::kw_str(*self) } #[verifier::external_body] fn ts(&self) -> (r: String) { unimplemented!() } }
/// `x.into()` (the composer renames the calls)
pub trait Conv<U> { spec fn cvv(self, u: U) -> bool; fn cv(self) -> (r: U) where Self: Sized ensures self.cvv(r); }
impl Conv<bool> for bool { open spec fn cvv(self, u: bool) -> bool { self == u } fn cv(self) -> (r: bool) { self } }
impl Conv<String> for &str { open spec fn cvv(self, u: String) -> bool { (*self)@ == u@ } #[verifier::external_body] fn cv(self) -> (r: String) { unimplemented!() } }
impl Conv<String> for String { open spec fn cvv(self, u: String) -> bool { self == u } fn cv(self) -> (r: String) { self } }
pub fn conv<U, T: Conv<U>>(t: T) -> (r: U) ensures t.cvv(r) { t.cv() }
#[verifier::external_body]
pub fn never() -> ! requires false { unimplemented!() }
pub fn vec0<T>() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() }
pub fn vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); assert(v@ =~= seq![a]); v }
pub fn vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); assert(v@ =~= seq![a, b]); v }
pub fn vec3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r@ == seq![a, b, c] { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); assert(v@ =~= seq![a, b, c]); v }
#[verifier::external_body]
pub fn fmt_any() -> String { unimplemented!() }
/// format!("${}", s)
#[verifier::external_body]
pub fn fmt_dollar(s: &String) -> (r: String) ensures r@ == label_key(s@) { unimplemented!() }
pub mod lk { use vstd::prelude::*; pub open spec fn label_key(s: Seq<char>) -> Seq<char> { seq!['$'] + s } }
pub use lk::*;
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// the characters of a text
#[verifier::external_body]
pub fn chars<S: StrEq>(s: &S) -> (r: Vec<char>) ensures r@ == s.sv(), bo(s.sv(), s.sv().len() as int) <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
/// s[b..].starts_with(c)
#[verifier::external_body]
pub fn starts_at<S: StrEq>(s: &S, b: usize, c: char) -> (r: bool)
    requires cb(s.sv(), b as int)
    ensures forall|k: int| 0 <= k <= s.sv().len() && #[trigger] bo(s.sv(), k) == b ==> r == (k < s.sv().len() && s.sv()[k] == c)
{ unimplemented!() }
#[verifier::external_body]
pub fn len_utf8(c: char) -> (r: usize) ensures r == ul(c) { unimplemented!() }
impl StrEq for &str { open spec fn sv(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn str_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn str_len<S: StrEq>(s: &S) -> (r: usize) ensures r == bo(s.sv(), s.sv().len() as int) { unimplemented!() }
// library functions whose result is left open: code that uses them can be brought under the verifier
pub assume_specification<'a>[ str::trim ](s: &'a str) -> (r: &'a str);
pub assume_specification<'a>[ str::trim_start ](s: &'a str) -> (r: &'a str);
pub assume_specification<'a>[ str::trim_end ](s: &'a str) -> (r: &'a str);
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String);
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String);
pub trait StrEq { spec fn sv(&self) -> Seq<char>; fn str_eq(&self, o: &str) -> (r: bool) ensures r == (self.sv() == o@); }
impl StrEq for str { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn str_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl StrEq for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn str_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn str_eq2(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn sl<'a>(s: &'a String, a: usize, b: usize) -> (r: &'a str)
    requires slice_ok(s@, a as int, b as int) ensures r@ == substr(s@, a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn sl_from<'a>(s: &'a String, a: usize) -> (r: &'a str)
    requires slice_ok(s@, a as int, blen(s@)) ensures r@ == substr(s@, a as int, blen(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn sl_to<'a>(s: &'a String, b: usize) -> (r: &'a str)
    requires slice_ok(s@, 0, b as int) ensures r@ == substr(s@, 0, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn lsl<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn lsl_from<T>(s: &[T], a: usize) -> (r: &[T]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn lsl_to<T>(s: &[T], b: usize) -> (r: &[T]) requires b <= s@.len() ensures r@ == s@.subrange(0, b as int) { unimplemented!() }
pub assume_specification<T>[ std::mem::replace ](d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == blen(s@);
/// str::trim_matches with a set of characters
pub uninterp spec fn trimmed(s: Seq<char>, set: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn trim_set<'a>(s: &'a String, set: &str) -> (r: &'a str) ensures r@ == trimmed(s@, set@) { unimplemented!() }
pub trait StrX {
    spec fn sx(&self) -> Seq<char>;
    fn rfind(&self, c: char) -> (r: Option<usize>)
        ensures r is Some <==> rfind_at(self.sx(), c) is Some,
            r is Some ==> r->0 == rfind_at(self.sx(), c)->0 && 0 <= r->0 < blen(self.sx()) && r->0 < 0x7fff_ffff_ffff_ffff && slice_ok(self.sx(), 0, r->0 as int)
                && slice_ok(self.sx(), r->0 as int, blen(self.sx()))
                // all callers search for ASCII characters, which are one byte long
                && ((c as u32) < 128 ==> slice_ok(self.sx(), r->0 + 1, blen(self.sx())) && (r->0 >= 1 && rfind_at(self.sx(), c)->0 >= 1 && ascii_first(self.sx()) ==> slice_ok(self.sx(), 1, r->0 as int)));
}
impl StrX for String { open spec fn sx(&self) -> Seq<char> { self@ } #[verifier::external_body] fn rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() } }
/// model of std::collections::HashSet<String> (label sets)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: std::marker::PhantomData<T> }
impl View for HashSet<String> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl HashSet<String> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<S: StrEq>(&self, k: &S) -> (r: bool) ensures r == self@.contains(k.sv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<S: StrEq>(&mut self, k: &S) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.sv()), r == old(self)@.contains(k.sv()) { unimplemented!() }
}
impl Clone for HashSet<String> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@, r == *self { unimplemented!() } }
// ---- error and comment-handler interfaces of the crate ----
pub enum Error {
    UnexpectedToken(Position, String), UnexpectedEoF, ParseAfterEoF, UnableToReinterpret(Position, String, String),
    Redecl(Position, String), OperationError(Position, String), InvalidGetterParams(Position), InvalidSetterParams(Position),
    NonStrictFeatureInStrictContext(Position, String), Other,
}
/// what a handler of the user may rely on; the default handler keeps nothing
pub trait CommentHandler: Sized {
    spec fn records() -> bool;
    /// every comment handed over so far / before parsing began
    spec fn log(&self) -> Seq<ress::Item>;
    spec fn base(&self) -> Seq<ress::Item>;
    fn handle_comment(&mut self, comment: ress::Item)
        ensures Self::records() ==> final(self).log() == old(self).log().push(comment) && final(self).base() == old(self).base();
}
pub struct DefaultCommentHandler;
impl CommentHandler for DefaultCommentHandler {
    open spec fn records() -> bool { false }
    uninterp spec fn log(&self) -> Seq<ress::Item>;
    uninterp spec fn base(&self) -> Seq<ress::Item>;
    #[verifier::external_body]
    fn handle_comment(&mut self, comment: ress::Item) { unimplemented!() }
}
