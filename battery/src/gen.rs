//! Top-down generator: builds a syntax tree and the token sequence that must parse to it.
use resast::prelude::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    pub fn n(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    /// true with probability p percent
    pub fn p(&mut self, p: u64) -> bool { self.next() % 100 < p }
    pub fn pick<'a>(&mut self, v: &[&'a str]) -> &'a str { v[self.n(v.len())] }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Word, Num, Str, Regex, Tmpl, Punct, Semi, DoSemi }
#[derive(Clone, Debug)]
pub struct Tok { pub s: String, pub k: K, pub nonl: bool, pub forcenl: bool }

#[derive(Clone, Copy)]
pub struct Profile { pub expr: u32, pub stmt: u32, pub def: u32, pub pat: u32, pub module: u32, pub strict: u32, pub look: u32 }

#[derive(Clone)]
pub struct C {
    pub yld: bool, pub awt: bool, pub strict: bool, pub in_fn: bool, pub in_iter: bool, pub in_switch: bool, pub allow_in: bool,
    pub method: bool, pub module: bool, pub labels: Vec<String>, pub outer_labels: Vec<String>, pub noyield: bool, pub arrow: bool,
    /// the parser may still be in the sloppy function's parameters
    pub params: bool,
}
pub struct G {
    pub r: Rng, pub out: Vec<Tok>, pub fuel: i32, pub pr: Profile,
    pub inject: Option<&'static str>, pub injected: Option<String>, pub nlabel: usize, pub inj_at: usize,
}
pub fn ident(s: &str) -> Expr { Expr::Ident(s.to_string()) }
type EL = AssignmentLeft;

impl G {
    pub fn new(seed: u64, fuel: i32, pr: Profile) -> G {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..4 { r.next(); }
        G { r, out: vec![], fuel, pr, inject: None, injected: None, nlabel: 0, inj_at: 0 }
    }
    pub fn t(&mut self, s: &str) {
        let c = s.chars().next().unwrap_or(';');
        let k = if c.is_alphabetic() || c == '_' || c == '$' { K::Word } else if c.is_ascii_digit() || (c == '.' && s.len() > 1 && s != "...") { K::Num }
            else if c == '\'' || c == '"' { K::Str } else { K::Punct };
        self.out.push(Tok { s: s.to_string(), k, nonl: false, forcenl: false });
    }
    pub fn tk(&mut self, s: &str, k: K) { self.out.push(Tok { s: s.to_string(), k, nonl: false, forcenl: false }); }
    /// token with no line terminator before it
    pub fn tn(&mut self, s: &str) { self.t(s); self.out.last_mut().unwrap().nonl = true; }
    pub fn ts(&mut self, v: &[&str]) { for s in v { self.t(s); } }
    /// the tokenizer reads / as a division after these tokens
    pub fn div_ok(&self) -> bool {
        let n = self.out.len();
        n >= 2 && match self.out[n - 1].k { K::Num => true, K::Word => ["a", "b", "c", "foo", "x1", "_y", "$z", "w", "k", "p", "q"].contains(&self.out[n - 1].s.as_str()), _ => false }
    }
    pub fn cut(&mut self, n: usize) { self.out.truncate(n); if self.inj_at >= n { self.injected = None; } }
    pub fn semi(&mut self) { self.tk("", K::Semi); }
    pub fn last(&self) -> &str { self.out.last().map(|t| t.s.as_str()).unwrap_or("") }
    pub fn burn(&mut self) -> bool { self.fuel -= 1; self.fuel > 0 }
    /// true when the violation `k` must be planted here
    pub fn inj(&mut self, k: &'static str) -> bool {
        if self.inject == Some(k) && self.injected.is_none() && (self.fuel < 6 || self.r.p(40)) { self.injected = Some(k.to_string()); self.inj_at = self.out.len(); true } else { false }
    }
    pub fn noinj(&self, k: &'static str) -> bool { !(self.inject == Some(k)) }

    // ---- names and literals ----
    pub fn bname(&mut self, c: &C) -> String {
        let base = ["a", "b", "c", "foo", "x1", "_y", "$z", "w", "k"];
        if self.r.p(12) {
            let mut v = vec!["of", "get", "set", "from", "as", "target", "constructor", "extends", "async"];
            if !c.strict { if !c.params { v.push("eval"); v.push("arguments"); } if !c.yld { v.push("yield"); } }
            let s = self.r.pick(&v);
            return s.to_string();
        }
        self.r.pick(&base).to_string()
    }
    /// identifier reference
    pub fn rname(&mut self, c: &C) -> String {
        if !c.strict && self.pr.strict > 0 && self.r.p(10) { return self.r.pick(&["static", "public", "interface", "package"]).to_string(); }
        loop {
            let s = self.bname(c);
            if s == "async" && self.pr.look == 0 { continue; }
            if s == "yield" && c.yld { continue; }
            return s;
        }
    }
    pub fn pname(&mut self) -> String {
        self.r.pick(&["a", "b", "p", "q", "if", "class", "delete", "null", "true", "static", "get", "set", "async", "yield", "await", "of", "function", "let", "var"]).to_string()
    }
    pub fn strlit(&mut self) -> String {
        let body = self.r.pick(&["", "a", "it's", "x y", "\\n", "\\'", "\\\\", "use", "0", "é", "*/", "//"]).to_string();
        if self.r.p(50) { format!("\"{}\"", body) } else { format!("'{}'", body.replace('\'', "\\'").replace("\\\\'", "\\'")) }
    }
    pub fn numlit(&mut self) -> String { self.r.pick(&["0", "1", "42", "3.5", ".5", "1e3", "0x1F", "0b10", "0o17", "2E-2"]).to_string() }
    pub fn regex_ok(&self) -> bool { matches!(self.last(), "=" | "(" | "," | "[" | "return" | "?" | "&&" | "||" | "!") && self.out.last().map(|t| t.k != K::Semi).unwrap_or(false) }
    pub fn literal(&mut self) -> Literal {
        match self.r.n(9) {
            0 | 1 => { let s = self.strlit(); self.t(&s); Literal::String(s) }
            2 | 3 => { let s = self.numlit(); self.t(&s); Literal::Number(s) }
            4 => { self.t("true"); Literal::Boolean(true) }
            5 => { self.t("false"); Literal::Boolean(false) }
            6 if self.regex_ok() => {
                let (p, f) = (self.r.pick(&["a+", "[/]", "a\\/b", "x|y", "^$"]), self.r.pick(&["", "g", "gi", "u"]));
                self.tk(&format!("/{}/{}", p, f), K::Regex);
                Literal::RegEx(RegEx { pattern: p.into(), flags: f.into() })
            }
            _ => { let s = self.numlit(); self.t(&s); Literal::Number(s) }
        }
    }
    pub fn template(&mut self, c: &C) -> TemplateLiteral {
        let mut quasis = vec![];
        let mut expressions = vec![];
        let n = if self.pr.expr > 0 { self.r.n(3) } else { 0 };
        let piece = |g: &mut G, pre: &str, post: &str, tail: bool| {
            let body = g.r.pick(&["", "x", "a b", "\\`", "$", "é", "'", "/"]).to_string();
            let body = if body == "$" && post == "${" { "".to_string() } else { body };
            let raw = format!("{}{}{}", pre, body, post);
            g.tk(&raw, K::Tmpl);
            TemplateElement { tail, cooked: body, raw }
        };
        if n == 0 {
            quasis.push(piece(self, "`", "`", true));
        } else {
            quasis.push(piece(self, "`", "${", false));
            for i in 0..n {
                let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false;
                if c.yld && !c.params && self.r.p(20) { self.t("yield"); expressions.push(Expr::Yield(YieldExpr { argument: None, delegate: false })); }
                else { expressions.push(self.expression(&cc)); }
                let last = i == n - 1;
                quasis.push(piece(self, "}", if last { "`" } else { "${" }, last));
            }
        }
        TemplateLiteral { quasis, expressions }
    }

    // ---- expressions ----
    pub fn expression(&mut self, c: &C) -> Expr {
        if self.pr.expr > 0 && self.fuel > 4 && self.r.p(8) {
            let mut v = vec![self.assign(c)];
            for _ in 0..1 + self.r.n(2) { self.t(","); v.push(self.assign(c)); }
            return Expr::Sequence(v);
        }
        self.assign(c)
    }
    pub fn paren_assign(&mut self, c: &C) -> Expr { self.t("("); let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false; let e = self.expression(&cc); self.t(")"); e }
    /// an expression small enough for the areas in which expressions do not matter
    pub fn trivial(&mut self, c: &C) -> Expr {
        if self.r.p(25) { let s = self.numlit(); self.t(&s); return Expr::Literal(Literal::Number(s)); }
        let s = loop { let s = self.rname(c); if s != "async" && s != "yield" && s != "of" && s != "as" && s != "from" { break s; } };
        self.t(&s); Expr::Ident(s)
    }
    pub fn assign(&mut self, c: &C) -> Expr {
        if !self.burn() { return self.trivial(c); }
        if let Some(e) = self.inject_expr(c) { return e; }
        if self.pr.expr == 0 && !(self.pr.def > 0 && self.r.p(50)) && !(self.pr.pat > 0 && self.r.p(50)) && !self.r.p(if self.pr.strict > 0 || self.pr.look > 0 { 40 } else { 3 }) { return self.trivial(c); }
        if self.pr.expr == 0 && self.pr.def == 0 && self.pr.strict == 0 && self.pr.look == 0 && self.pr.pat > 0 && !self.r.p(4) { return if self.r.p(50) { self.arrow(c) } else if self.r.p(60) { self.destruct_assign(c) } else { self.fn_expr(c) }; }
        match self.r.n(20) {
            0 | 1 => self.arrow(c),
            2 | 3 => self.simple_assign(c),
            4 => self.destruct_assign(c),
            5 | 6 if c.yld && !c.params && !c.noyield => self.yield_expr(c),
            7 | 8 => self.conditional(c),
            9 if c.strict == false && self.pr.strict > 0 && self.inject.is_none() => { // sloppy-only constructs that must stay accepted
                match self.r.n(3) {
                    0 => { self.ts(&["eval", "="]); let e = self.assign(c); Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: EL::Expr(Box::new(ident("eval"))), right: Box::new(e) }) }
                    1 => { self.ts(&["delete", "a"]); Expr::Unary(UnaryExpr { operator: UnaryOperator::Delete, prefix: true, argument: Box::new(ident("a")) }) }
                    _ => { self.ts(&["++", "arguments"]); Expr::Update(UpdateExpr { operator: UpdateOperator::Increment, prefix: true, argument: Box::new(ident("arguments")) }) }
                }
            }
            _ => self.binary(c, 1),
        }
    }
    pub fn yield_expr(&mut self, c: &C) -> Expr {
        self.t("yield");
        match self.r.n(4) {
            0 => { self.t("*"); let n = self.out.len(); let e = self.assign(c); let _ = n; self.out[n - 1].nonl = true; Expr::Yield(YieldExpr { argument: Some(Box::new(e)), delegate: true }) }
            1 => {
                // a bare yield must be followed by a token that cannot start its operand
                self.out.pop();
                self.ts(&["(", "yield", ")"]);
                Expr::Yield(YieldExpr { argument: None, delegate: false })
            }
            _ => {
                let n = self.out.len();
                let e = self.assign(c);
                self.out[n].nonl = true;
                let f = self.out[n].clone();
                let starts = match f.k { K::Punct => matches!(f.s.as_str(), "{" | "(" | "[" | "+" | "-" | "!" | "~" | "++" | "--"), _ => true };
                if !starts { self.out.insert(n, Tok { s: "(".into(), k: K::Punct, nonl: true, forcenl: false }); self.t(")"); }
                Expr::Yield(YieldExpr { argument: Some(Box::new(e)), delegate: false })
            }
        }
    }
    pub fn conditional(&mut self, c: &C) -> Expr {
        let test = self.binary(c, 1);
        self.t("?");
        let mut ci = c.clone(); ci.allow_in = true;
        let a = self.assign(&ci);
        self.t(":");
        let b = self.assign(c);
        Expr::Conditional(ConditionalExpr { test: Box::new(test), consequent: Box::new(a), alternate: Box::new(b) })
    }
    pub fn binop(&mut self, c: &C, lvl: u32) -> Option<(&'static str, u32, Expr)> {
        use BinaryOperator::*;
        let all: &[(&'static str, u32, BinaryOperator)] = &[("|", 3, Or), ("^", 4, XOr), ("&", 5, And), ("==", 6, Equal), ("!=", 6, NotEqual), ("===", 6, StrictEqual),
            ("!==", 6, StrictNotEqual), ("<", 7, LessThan), (">", 7, GreaterThan), ("<=", 7, LessThanEqual), (">=", 7, GreaterThanEqual), ("in", 7, In), ("instanceof", 7, InstanceOf),
            ("<<", 8, LeftShift), (">>", 8, RightShift), (">>>", 8, UnsignedRightShift), ("+", 9, Plus), ("-", 9, Minus), ("*", 10, Times), ("/", 10, Over), ("%", 10, Mod)];
        let d = || Box::new(Expr::This);
        let i = self.r.n(all.len() + 6);
        let (s, l, e) = if i < all.len() { let (s, l, o) = all[i]; (s, l, Expr::Binary(BinaryExpr { operator: o, left: d(), right: d() })) }
            else if i % 2 == 0 { ("||", 1, Expr::Logical(LogicalExpr { operator: LogicalOperator::Or, left: d(), right: d() })) }
            else { ("&&", 2, Expr::Logical(LogicalExpr { operator: LogicalOperator::And, left: d(), right: d() })) };
        if l < lvl || (s == "in" && !c.allow_in) { None } else { Some((s, l, e)) }
    }
    pub fn binary(&mut self, c: &C, lvl: u32) -> Expr {
        if self.r.p(35) && self.burn() {
            if let Some((s, l, e)) = self.binop(c, lvl) {
                // left operand at the operator's own level: left associative
                let left = self.binary(c, l);
                if s == "/" && !self.div_ok() { return left; }
                self.t(s);
                let right = self.binary(c, l + 1);
                return match e {
                    Expr::Binary(b) => Expr::Binary(BinaryExpr { operator: b.operator, left: Box::new(left), right: Box::new(right) }),
                    Expr::Logical(b) => Expr::Logical(LogicalExpr { operator: b.operator, left: Box::new(left), right: Box::new(right) }),
                    _ => unreachable!(),
                };
            }
        }
        self.expo(c)
    }
    pub fn expo(&mut self, c: &C) -> Expr {
        if self.r.p(8) && self.burn() {
            let l = self.update(c);
            self.t("**");
            let r = self.expo(c);
            return Expr::Binary(BinaryExpr { operator: BinaryOperator::PowerOf, left: Box::new(l), right: Box::new(r) });
        }
        self.unary(c)
    }
    pub fn unary(&mut self, c: &C) -> Expr {
        use UnaryOperator::*;
        if self.r.p(18) && self.burn() {
            if c.awt && !c.params && self.r.p(40) { self.t("await"); let a = self.unary(c); return Expr::Await(Box::new(a)); }
            let ops = [("-", Minus), ("+", Plus), ("!", Not), ("~", Tilde), ("typeof", TypeOf), ("void", Void), ("delete", Delete)];
            let (s, o) = ops[self.r.n(7)];
            self.t(s);
            let n = self.out.len();
            let mut a = self.unary(c);
            if s == "delete" && c.strict { if let Expr::Ident(_) = a { self.cut(n); self.t("1"); a = Expr::Literal(Literal::Number("1".into())); } }
            return Expr::Unary(UnaryExpr { operator: o, prefix: true, argument: Box::new(a) });
        }
        self.update(c)
    }
    pub fn update(&mut self, c: &C) -> Expr {
        use UpdateOperator::*;
        if self.r.p(8) && self.burn() {
            let (s, o) = if self.r.p(50) { ("++", Increment) } else { ("--", Decrement) };
            if self.r.p(50) {
                self.t(s);
                let a = self.simple_target(c);
                return Expr::Update(UpdateExpr { operator: o, argument: Box::new(a), prefix: true });
            }
            let a = self.simple_target(c);
            self.tn(s);
            return Expr::Update(UpdateExpr { operator: o, argument: Box::new(a), prefix: false });
        }
        self.lhs(c, true)
    }
    /// identifier or member expression, possibly parenthesised
    pub fn simple_target(&mut self, c: &C) -> Expr {
        let par = self.r.p(10);
        if par { self.t("("); }
        let e = if self.r.p(50) { let s = loop { let s = self.rname(c); if s != "async" && s != "let" && !(c.strict && (s == "eval" || s == "arguments")) { break s; } }; self.t(&s); Expr::Ident(s) } else { self.member_target(c) };
        if par { self.t(")"); }
        e
    }
    pub fn member_target(&mut self, c: &C) -> Expr {
        let o = self.lhs(c, self.fuel > 0);
        self.member_tail(c, o)
    }
    pub fn member_tail(&mut self, c: &C, o: Expr) -> Expr {
        if self.r.p(50) {
            self.t("."); let p = self.pname(); self.t(&p);
            Expr::Member(MemberExpr { object: Box::new(o), property: Box::new(Expr::Ident(p)), computed: false })
        } else {
            self.t("["); let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false; let p = self.expression(&cc); self.t("]");
            Expr::Member(MemberExpr { object: Box::new(o), property: Box::new(p), computed: true })
        }
    }
    pub fn args(&mut self, c: &C) -> Vec<Expr> {
        let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false;
        self.t("(");
        let mut v = vec![];
        let n = self.r.n(3);
        for i in 0..n {
            if self.r.p(12) { self.t("..."); let e = self.assign(&cc); v.push(Expr::Spread(Box::new(e))); } else { v.push(self.assign(&cc)); }
            if i + 1 < n || self.r.p(8) { self.t(","); }
        }
        self.t(")");
        v
    }
    pub fn lhs(&mut self, c: &C, call: bool) -> Expr {
        let mut e = if c.method && self.r.p(12) && self.pr.def > 0 { self.t("super"); return { let e = self.member_tail(c, Expr::Super); e }; }
            else if self.r.p(10) && self.burn() { self.new_expr(c) } else { self.primary(c) };
        let tagok = !matches!(self.last(), "yield");
        let _ = tagok;
        while self.r.p(25) && self.burn() {
            match self.r.n(6) {
                0 | 1 | 2 => e = self.member_tail(c, e),
                3 | 4 if call => { if let Expr::Ident(ref s) = e { if s == "async" { continue; } } let a = self.args(c); e = Expr::Call(CallExpr { callee: Box::new(e), arguments: a }); }
                5 => { let q = self.template(c); e = Expr::TaggedTemplate(TaggedTemplateExpr { tag: Box::new(e), quasi: q }); }
                _ => (),
            }
        }
        e
    }
    pub fn new_expr(&mut self, c: &C) -> Expr {
        self.t("new");
        if c.in_fn && !c.arrow && self.r.p(15) { self.ts(&[".", "target"]); return Expr::MetaProperty(MetaProperty { meta: "new".into(), property: "target".into() }); }
        let n = self.out.len();
        let callee = { let e = self.lhs(c, false); if self.out[n].s == "import" { self.cut(n); self.t("a"); ident("a") } else { e } };
        let a = self.args(c);
        Expr::New(NewExpr { callee: Box::new(callee), arguments: a })
    }
    pub fn primary(&mut self, c: &C) -> Expr {
        if !self.burn() { return self.trivial(c); }
        match self.r.n(20) {
            0 | 1 => Expr::Literal(self.literal()),
            2 => { self.t("this"); Expr::This }
            3 | 4 => self.paren_assign(c),
            5 | 6 => self.array(c),
            7 | 8 => self.object(c),
            9 => Expr::Literal(Literal::Template(self.template(c))),
            10 if self.pr.def > 0 || self.r.p(30) => self.fn_expr(c),
            11 if self.pr.def > 0 || self.r.p(30) => { let cl = self.class(c, true); Expr::Class(cl) }
            12 if self.r.p(30) => { self.ts(&["import", "("]); let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false; let e = self.assign(&cc); self.t(")"); Expr::Call(CallExpr { callee: Box::new(ident("import")), arguments: vec![e] }) }
            _ => { let s = self.rname(c); self.t(&s); if s == "async" || s == "yield" { self.out.pop(); self.ts(&["(", &s, ")"]); } Expr::Ident(s) }
        }
    }
    pub fn array(&mut self, c: &C) -> Expr {
        let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false;
        self.t("[");
        let mut v = vec![];
        let n = self.r.n(4);
        for i in 0..n {
            if self.r.p(15) { self.t(","); v.push(None); continue; }
            if self.r.p(12) { self.t("..."); let e = self.assign(&cc); v.push(Some(Expr::Spread(Box::new(e)))); } else { v.push(Some(self.assign(&cc))); }
            if i + 1 < n || self.r.p(15) { self.t(","); }
        }
        self.t("]");
        Expr::Array(v)
    }
    pub fn prop_key(&mut self, c: &C, allow_computed: bool) -> (PropertyKey, bool) {
        match self.r.n(10) {
            0 => { let s = self.strlit(); self.t(&s); (PropertyKey::Literal(Literal::String(s)), false) }
            1 => { let s = self.numlit(); self.t(&s); (PropertyKey::Literal(Literal::Number(s)), false) }
            2 | 3 if allow_computed => {
                self.t("["); let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false; let e = self.assign(&cc); self.t("]");
                (match e { Expr::Literal(l @ Literal::String(_)) | Expr::Literal(l @ Literal::Number(_)) | Expr::Literal(l @ Literal::Boolean(_)) => PropertyKey::Literal(l), e => PropertyKey::Expr(e) }, true)
            }
            _ => { let s = self.pname(); self.t(&s); (PropertyKey::Expr(Expr::Ident(s)), false) }
        }
    }
    pub fn method_fn(&mut self, c: &C, gen: bool, asy: bool, nparams: Option<usize>, ctor: bool) -> PropertyValue {
        let _ = ctor;
        let f = self.fn_rest(c, None, gen, asy, nparams, true);
        PropertyValue::Expr(Expr::Function(f))
    }
    pub fn object(&mut self, c: &C) -> Expr {
        let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false;
        self.t("{");
        let mut v = vec![];
        let n = self.r.n(4);
        let mut proto = false;
        for i in 0..n {
            let p = match self.r.n(14) {
                0 => { self.t("..."); let e = self.assign(&cc); ObjectProperty::Spread(Box::new(Expr::Spread(Box::new(e)))) }
                1 | 2 => { let s = loop { let s = self.bname(c); if s != "yield" && !(c.strict && (s == "eval")) { break s; } }; self.t(&s); ObjectProperty::Property(Property { key: PropertyKey::Expr(Expr::Ident(s)), value: PropertyValue::None, kind: PropertyKind::Init, method: false, computed: false, short_hand: true }) }
                3 => { let (key, computed) = { self.t("get"); self.prop_key(c, true) }; let value = self.getset_body(c, true); ObjectProperty::Property(Property { key, value, kind: PropertyKind::Get, method: false, computed, short_hand: false }) }
                4 => { let (key, computed) = { self.t("set"); self.prop_key(c, true) }; let value = self.getset_body(c, false); ObjectProperty::Property(Property { key, value, kind: PropertyKind::Set, method: false, computed, short_hand: false }) }
                5 => { self.t("*"); let (key, computed) = self.prop_key(c, true); let value = self.method_fn(c, true, false, None, false); ObjectProperty::Property(Property { key, value, kind: PropertyKind::Init, method: true, computed, short_hand: false }) }
                6 => { self.t("async"); let n = self.out.len(); let gen = self.r.p(30); if gen { self.t("*"); } let (key, computed) = self.prop_key(c, true); self.out[n].nonl = true; let value = self.method_fn(c, gen, true, None, false); ObjectProperty::Property(Property { key, value, kind: PropertyKind::Init, method: true, computed, short_hand: false }) }
                7 => { let (key, computed) = self.prop_key(c, true); let value = self.method_fn(c, false, false, None, false); ObjectProperty::Property(Property { key, value, kind: PropertyKind::Init, method: true, computed, short_hand: false }) }
                8 if !proto => { proto = true; self.ts(&["__proto__", ":"]); let e = self.assign(&cc); ObjectProperty::Property(Property { key: PropertyKey::Expr(ident("__proto__")), value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed: false, short_hand: false }) }
                _ => { let (key, computed) = self.prop_key(c, true); self.t(":"); let e = self.assign(&cc); ObjectProperty::Property(Property { key, value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed, short_hand: false }) }
            };
            v.push(p);
            if i + 1 < n || self.r.p(15) { self.t(","); }
        }
        if self.inj("early:proto") { if n > 0 && self.last() != "," { self.t(","); } let k = self.r.pick(&["__proto__", "'__proto__'"]).to_string(); self.ts(&["__proto__", ":", "1", ",", &k, ":", "2"]); }
        self.t("}");
        Expr::Object(v)
    }
    pub fn getset_body(&mut self, c: &C, get: bool) -> PropertyValue {
        if get && self.inj("early:getter") { return self.method_fn(c, false, false, Some(1), false); }
        if !get && self.inj("early:setter") { let n = if self.r.p(50) { 0 } else { 2 }; return self.method_fn(c, false, false, Some(n), false); }
        if !get && self.inj("early:setrest") { self.ts(&["(", "...", "a", ")", "{", "}"]); return PropertyValue::None; }
        self.method_fn(c, false, false, Some(if get { 0 } else { 1 }), false)
    }
    pub fn simple_assign(&mut self, c: &C) -> Expr {
        use AssignmentOperator::*;
        let ops = [("=", Equal), ("=", Equal), ("=", Equal), ("+=", PlusEqual), ("-=", MinusEqual), ("*=", TimesEqual), ("/=", DivEqual), ("%=", ModEqual), ("<<=", LeftShiftEqual), (">>=", RightShiftEqual),
            (">>>=", UnsignedRightShiftEqual), ("|=", OrEqual), ("^=", XOrEqual), ("&=", AndEqual), ("**=", PowerOfEqual)];
        let l = self.simple_target(c);
        let mut k = self.r.n(ops.len());
        if ops[k].0 == "/=" && !self.div_ok() { k = 0; }
        let (s, o) = (ops[k].0, ops[k].1.clone());
        self.t(s);
        let r = self.assign(c);
        Expr::Assignment(AssignmentExpr { operator: o, left: EL::Expr(Box::new(l)), right: Box::new(r) })
    }
    /// pattern on the left of an assignment, as the cover grammar represents it
    pub fn assign_pattern(&mut self, c: &C, depth: u32) -> Expr {
        let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false;
        if self.r.p(50) {
            self.t("[");
            let mut v = vec![];
            let n = self.r.n(4);
            for i in 0..n {
                if self.r.p(15) { self.t(","); v.push(None); continue; }
                if i + 1 == n && self.r.p(20) { self.t("..."); let e = self.pat_leaf(&cc, depth); v.push(Some(Expr::Spread(Box::new(e)))); break; }
                v.push(Some(self.pat_elem(&cc, depth)));
                if i + 1 < n || self.r.p(15) { self.t(","); }
            }
            self.t("]");
            Expr::Array(v)
        } else {
            self.t("{");
            let mut v = vec![];
            let n = self.r.n(4);
            for i in 0..n {
                match self.r.n(4) {
                    0 => { let s = loop { let s = self.bname(c); if s != "yield" && !(c.strict && s == "eval") { break s; } }; self.t(&s);
                        if self.r.p(40) { self.t("="); let e = self.assign(&cc); v.push(ObjectProperty::Property(Property { key: PropertyKey::Expr(Expr::Ident(s)), value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed: false, short_hand: true })); }
                        else { v.push(ObjectProperty::Property(Property { key: PropertyKey::Expr(Expr::Ident(s)), value: PropertyValue::None, kind: PropertyKind::Init, method: false, computed: false, short_hand: true })); } }
                    1 if i + 1 == n => { self.t("..."); let s = self.plain(); self.t(&s); v.push(ObjectProperty::Spread(Box::new(Expr::Spread(Box::new(Expr::Ident(s)))))); break; }
                    _ => { let (key, computed) = self.prop_key(c, true); self.t(":"); let e = self.pat_elem(&cc, depth); v.push(ObjectProperty::Property(Property { key, value: PropertyValue::Expr(e), kind: PropertyKind::Init, method: false, computed, short_hand: false })); }
                }
                if i + 1 < n || self.r.p(15) { self.t(","); }
            }
            self.t("}");
            Expr::Object(v)
        }
    }
    pub fn plain(&mut self) -> String { self.r.pick(&["a", "b", "c", "foo", "x1"]).to_string() }
    pub fn pat_leaf(&mut self, c: &C, depth: u32) -> Expr {
        if depth > 0 && self.r.p(30) && self.burn() { self.assign_pattern(c, depth - 1) } else if c.params { let s = self.plain(); self.t(&s); Expr::Ident(s) } else if self.r.p(40) && self.pr.expr + self.pr.pat > 0 { self.member_target(c) } else { let s = self.plain(); self.t(&s); Expr::Ident(s) }
    }
    pub fn pat_elem(&mut self, c: &C, depth: u32) -> Expr {
        let l = self.pat_leaf(c, depth);
        if self.r.p(25) { self.t("="); let mut cc = c.clone(); cc.params = c.params; cc.allow_in = true; let r = if c.params { self.default_value(&cc) } else { self.assign(&cc) }; return Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: EL::Expr(Box::new(l)), right: Box::new(r) }); }
        l
    }
    pub fn default_value(&mut self, c: &C) -> Expr { let mut cc = c.clone(); cc.params = true; self.assign(&cc) }
    pub fn destruct_assign(&mut self, c: &C) -> Expr {
        let cc = c.clone();
        let l = self.assign_pattern(&cc, 1);
        self.t("=");
        let r = self.assign(c);
        Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: EL::Expr(Box::new(l)), right: Box::new(r) })
    }
    pub fn fn_context(&self, c: &C, gen: bool, asy: bool) -> C {
        C { yld: gen, awt: asy, strict: c.strict, in_fn: true, in_iter: false, in_switch: false, allow_in: true, method: false, module: c.module, labels: vec![],
            outer_labels: c.labels.iter().chain(c.outer_labels.iter()).cloned().collect(), noyield: false, arrow: false, params: false }
    }
    pub fn arrow(&mut self, c: &C) -> Expr {
        let asy = self.r.p(25);
        let mut pc = c.clone(); pc.params = true; pc.allow_in = true;
        let params: Vec<FunctionArg>;
        let mut simple = true;
        if asy { self.t("async"); }
        if self.r.p(35) {
            let s = self.plain();
            if asy { self.tn(&s); params = vec![FunctionArg::Pat(Pat::Identifier(s))]; } else { self.t(&s); params = vec![FunctionArg::Expr(Expr::Ident(s))]; }
        } else {
            if asy { self.tn("("); } else { self.t("("); }
            let n = self.r.n(4);
            let mut v = vec![];
            for i in 0..n {
                if i + 1 == n && self.r.p(15) {
                    simple = false;
                    self.t("...");
                    if asy { let e = { let mut p2 = pc.clone(); p2.params = true; self.pat_leaf(&p2, 1) }; v.push(FunctionArg::Expr(Expr::Spread(Box::new(e)))); }
                    else { let p = self.binding_pat(&pc, 1, false); v.push(FunctionArg::Pat(Pat::RestElement(Box::new(p)))); }
                    break;
                }
                let e = self.pat_elem(&pc, 1);
                if !matches!(e, Expr::Ident(_)) { simple = false; }
                // a yield as the default value is rejected
                v.push(FunctionArg::Expr(e));
                if i + 1 < n || self.r.p(8) { self.t(","); }
            }
            self.t(")");
            params = v;
        }
        if self.inj("asi:arrow") { self.t("=>"); self.out.last_mut().unwrap().forcenl = true; } else { self.tn("=>"); }
        let mut bc = self.fn_context(c, false, asy);
        bc.arrow = c.arrow || !c.in_fn;
        bc.method = c.method;
        if self.r.p(50) {
            bc.allow_in = c.allow_in;
            bc.in_fn = c.in_fn; // an expression body does not enter a function body
            let n = self.out.len();
            let e = self.assign(&bc);
            if self.out[n].s == "{" { self.out.insert(n, Tok { s: "(".into(), k: K::Punct, nonl: false, forcenl: false }); self.t(")"); }
            return Expr::ArrowFunction(ArrowFunctionExpr { id: None, params, body: ArrowFunctionBody::Expr(Box::new(e)), expression: true, generator: false, is_async: asy });
        }
        let body = self.fn_body(&bc, simple);
        // the parser takes no operator after an arrow function: the caller never appends one
        Expr::ArrowFunction(ArrowFunctionExpr { id: None, params, body: ArrowFunctionBody::FunctionBody(body), expression: false, generator: false, is_async: asy })
    }
    pub fn fn_expr(&mut self, c: &C) -> Expr {
        let asy = self.r.p(20);
        let gen = self.r.p(25);
        if asy { self.t("async"); self.tn("function"); } else { self.t("function"); }
        if gen { self.t("*"); }
        let id = if self.r.p(50) { let s = self.plain(); self.t(&s); Some(s) } else { None };
        Expr::Function(self.fn_rest(c, id, gen, asy, None, false))
    }
    /// parameters and body
    pub fn fn_rest(&mut self, c: &C, id: Option<String>, gen: bool, asy: bool, nparams: Option<usize>, method: bool) -> Function {
        let mut fc = self.fn_context(c, gen, asy);
        fc.method = method;
        let mut pc = fc.clone(); pc.params = true; pc.in_fn = c.in_fn; pc.method = false; pc.labels = c.labels.clone(); pc.arrow = true;
        self.t("(");
        let n = nparams.unwrap_or_else(|| self.r.n(4));
        let mut params = vec![];
        let mut simple = true;
        for i in 0..n {
            if self.inj("strict:param") { if c.strict { let s = self.r.pick(&["eval", "arguments"]).to_string(); self.t(&s); } else { self.t("a"); self.injected = None; } if i + 1 < n { self.t(","); } params.push(FunctionArg::Pat(Pat::Identifier("a".into()))); continue; }
            if i + 1 == n && self.r.p(12) && nparams.is_none() {
                simple = false;
                self.t("...");
                let p = self.binding_pat(&pc, 1, true);
                params.push(FunctionArg::Pat(Pat::RestElement(Box::new(p))));
                break;
            }
            let p = self.pat_default(&pc, if self.pr.pat > 0 { 2 } else { 1 }, true);
            if !matches!(p, Pat::Identifier(_)) { simple = false; }
            params.push(FunctionArg::Pat(p));
            if i + 1 < n || (self.r.p(8)) { self.t(","); }
        }
        self.t(")");
        let body = self.fn_body(&fc, simple);
        Function { id, params, body, generator: gen, is_async: asy }
    }
    pub fn fn_body(&mut self, c: &C, simple: bool) -> FunctionBody {
        let mut bc = c.clone();
        self.t("{");
        let mut v = self.directives(&mut bc, simple);
        let k = if self.fuel > 0 { self.r.n(3) } else { 0 };
        for i in 0..k { let p = self.item_nostr(&bc, i == 0); v.push(p); }
        if self.pr.stmt > 0 || self.r.p(30) || self.inject.is_some() { if self.r.p(50) { v.push(ProgramPart::Stmt(self.return_stmt(&bc))); } }
        self.t("}");
        v
    }
    pub fn return_stmt(&mut self, c: &C) -> Stmt {
        self.t("return");
        let a = if self.r.p(60) { let n = self.out.len(); let e = self.expression(c); self.out[n].nonl = true; Some(e) } else { None };
        self.semi();
        Stmt::Return(a)
    }
    pub fn directives(&mut self, c: &mut C, simple: bool) -> Vec<ProgramPart> {
        let mut v = vec![];
        if self.inj("strict:nonsimple") { if simple { self.injected = None; } else { self.ts(&["'use strict'"]); self.semi(); return v; } }
        while self.r.p(if self.pr.strict > 0 || self.pr.def > 0 { 25 } else { 6 }) {
            let s = if simple && self.r.p(if self.pr.strict > 0 { 60 } else { 20 }) { c.strict = true; self.r.pick(&["'use strict'", "\"use strict\""]).to_string() } else { self.strlit() };
            if s == "'use strict'" { c.strict = true; }
            self.t(&s);
            self.semi();
            v.push(ProgramPart::Dir(Dir { dir: s[1..s.len() - 1].to_string(), expr: Literal::String(s) }));
        }
        v
    }
    pub fn class(&mut self, c: &C, opt: bool) -> Class {
        let mut cc = c.clone(); cc.strict = true;
        self.t("class");
        let id = if !opt || self.r.p(60) { let s = self.plain(); self.t(&s); Some(s) } else { None };
        let super_class = if self.r.p(35) { self.t("extends"); let n = self.out.len(); let call = self.r.p(50); let mut hc = cc.clone(); hc.allow_in = true; let e = self.lhs(&hc, call);
            // the class body follows: keep the heritage unambiguous
            let e = if self.out[n].s == "import" { self.cut(n); self.t("b"); ident("b") } else { e }; Some(Box::new(e)) } else { None };
        self.t("{");
        let mut body = vec![];
        let n = if self.fuel > 0 { self.r.n(4) } else { 0 };
        let mut ctor = false;
        let x = |key, value, kind, method, computed| Property { key, value, kind, method, computed, short_hand: false };
        for _ in 0..n {
            if self.r.p(10) { self.t(";"); }
            let stat = self.r.p(20);
            if stat { self.t("static"); }
            match self.r.n(8) {
                0 => { self.t("get"); let (k, cp) = self.class_key(&cc); let v = self.getset_body(&cc, true); body.push(x(k, v, PropertyKind::Get, false, cp)); }
                1 => { self.t("set"); let (k, cp) = self.class_key(&cc); let v = self.getset_body(&cc, false); body.push(x(k, v, PropertyKind::Set, false, cp)); }
                2 => { self.t("*"); let (k, cp) = self.class_key(&cc); let v = self.method_fn(&cc, true, false, None, false); body.push(x(k, v, PropertyKind::Method, true, cp)); }
                3 => { self.t("async"); let i = self.out.len(); let gen = self.r.p(30); if gen { self.t("*"); } let (k, cp) = self.class_key(&cc); self.out[i].nonl = true; let v = self.method_fn(&cc, gen, true, None, false); body.push(x(k, v, PropertyKind::Method, true, cp)); }
                4 if !stat && !ctor => { ctor = true; self.t("constructor"); let v = self.method_fn(&cc, false, false, None, true); body.push(x(PropertyKey::Expr(ident("constructor")), v, PropertyKind::Ctor, true, false)); }
                _ => { let (k, cp) = self.class_key(&cc); let v = self.method_fn(&cc, false, false, None, false); body.push(x(k, v, PropertyKind::Method, true, cp)); }
            }
        }
        if self.inj("early:ctor") {
            match self.r.n(7) {
                0 | 1 => { if !ctor { self.ts(&["constructor", "(", ")", "{", "}"]); } self.ts(&["constructor", "(", ")", "{", "}"]); }
                2 => self.ts(&["get", "constructor", "(", ")", "{", "}"]),
                3 => self.ts(&["*", "constructor", "(", ")", "{", "}"]),
                4 => self.ts(&["static", "prototype", "(", ")", "{", "}"]),
                5 => { self.ts(&["constructor", "(", ")", "{", "}", "'constructor'", "(", ")", "{", "}"]); }
                _ => self.ts(&["set", "constructor", "(", "a", ")", "{", "}"]),
            }
        }
        if self.r.p(10) { self.t(";"); }
        self.t("}");
        Class { id, super_class, body }
    }
    pub fn class_key(&mut self, c: &C) -> (PropertyKey, bool) {
        self.prop_key(c, true)
    }

    // ---- binding patterns ----
    pub fn binding_name(&mut self, c: &C, var: bool) -> String {
        if self.inj("pat:word") { let s = self.r.pick(&["if", "class", "new", "function", "in", "this", "delete", "var", "true", "else", "typeof", "case", "default", "super", "enum"]).to_string(); self.tn(&s); return s; }
        if self.inj("strict:binding") {
            if c.strict { let s = self.r.pick(&["implements", "interface", "package", "private", "static", "yield", "let"]).to_string(); self.t(&s); return s; }
            self.injected = None;
        }
        let s = if var && !c.strict && self.r.p(4) && (self.pr.strict > 0 || self.pr.pat > 0) { self.r.pick(&["static", "interface", "public"]).to_string() } else { loop { let s = self.bname(c); if s == "async" && self.pr.look == 0 { continue; } break s; } };
        self.t(&s);
        s
    }
    pub fn binding_pat(&mut self, c: &C, depth: u32, var: bool) -> Pat {
        if depth == 0 || !self.r.p(if self.pr.pat > 0 { 45 } else { 10 }) || !self.burn() { return Pat::Identifier(self.binding_name(c, var)); }
        let c = &{ let mut cc = c.clone(); cc.allow_in = true; cc };
        if self.r.p(50) {
            self.t("[");
            let mut v = vec![];
            let n = self.r.n(4);
            for i in 0..n {
                if self.r.p(15) { self.t(","); v.push(None); continue; }
                if i + 1 == n && self.r.p(25) { self.t("..."); let p = self.binding_pat(c, depth - 1, true); v.push(Some(ArrayPatPart::Pat(Pat::RestElement(Box::new(p))))); break; }
                v.push(Some(ArrayPatPart::Pat(self.pat_default(c, depth - 1, true))));
                if i + 1 < n || self.r.p(15) { self.t(","); }
            }
            self.t("]");
            Pat::Array(v)
        } else {
            self.t("{");
            let mut v = vec![];
            let n = self.r.n(4);
            for i in 0..n {
                let pp = |key, value, computed, short_hand| ObjectPatPart::Assignment(Property { key, value, kind: PropertyKind::Init, method: false, computed, short_hand });
                match self.r.n(5) {
                    0 => { let s = self.plain(); self.t(&s); self.t("="); let e = self.default_value(c); v.push(pp(PropertyKey::Expr(Expr::Ident(s)), PropertyValue::Expr(e), false, true)); }
                    1 => { let s = self.plain(); self.t(&s); v.push(pp(PropertyKey::Expr(Expr::Ident(s)), PropertyValue::None, false, true)); }
                    2 if i + 1 == n => { self.t("..."); let s = self.plain(); self.t(&s); v.push(ObjectPatPart::Rest(Box::new(Pat::RestElement(Box::new(Pat::Identifier(s)))))); break; }
                    _ => { let (k, cp) = self.prop_key(c, true); if let PropertyKey::Expr(Expr::Ident(ref s)) = k { if !cp && s == "await" { self.out.pop(); self.t("p"); self.t(":"); let p = self.pat_default(c, depth - 1, true); v.push(pp(PropertyKey::Expr(ident("p")), PropertyValue::Pat(p), false, false)); if i + 1 < n { self.t(","); } continue; } }
                        self.t(":"); let p = self.pat_default(c, depth - 1, true); v.push(pp(k, PropertyValue::Pat(p), cp, false)); }
                }
                if i + 1 < n || self.r.p(15) { self.t(","); }
            }
            self.t("}");
            Pat::Object(v)
        }
    }
    pub fn pat_default(&mut self, c: &C, depth: u32, var: bool) -> Pat {
        let p = self.binding_pat(c, depth, var);
        if self.r.p(20) { self.t("="); let e = self.default_value(c); return Pat::Assignment(AssignmentPat { left: Box::new(p), right: Box::new(e) }); }
        p
    }

    // ---- planted violations inside expressions ----
    /// an expression that is no target, and whether an operator or a comma may stand beside it without parentheses
    fn no_target(&mut self, c: &C) -> (String, bool) {
        let x = self.r.pick(&["a", "a . b", "a [ 0 ]", "1", "f ( )", "this"]).to_string();
        let y = self.r.pick(&["b", "b . c", "b [ 1 ]", "2", "g ( )", "'s'"]).to_string();
        let z = self.r.pick(&["c", "c . d", "3", "h ( )"]).to_string();
        let bin = self.r.pick(&["+", "-", "*", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "|", "^", "&&", "||", "instanceof"]).to_string();
        let asg = self.r.pick(&["=", "+=", "-=", "*=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^="]).to_string();
        let un = self.r.pick(&["-", "+", "!", "~", "typeof", "void", "delete"]).to_string();
        let m = self.r.pick(&["a", "a . b", "a [ 0 ]"]).to_string();
        match self.r.n(20) {
            0 => (self.r.pick(&["1", "0.5", "'s'", "true", "false", "this", "`t`"]).to_string(), true),
            1 => (format!("{} ? {} : {}", x, y, z), false),
            2 => (format!("{} ? {} : {}", x, y, m), false),
            3 | 4 => (format!("{} {} {}", x, bin, y), true),
            5 => (format!("{} {}", un, if un == "delete" { "a . b" } else { &m }), true),
            6 => (format!("{} ++", m), true),
            7 => (format!("-- {}", m), true),
            8 => (format!("{} {} {}", m, asg, y), false),
            9 => (format!("{} , {}", x, m), false),
            10 => (self.r.pick(&["x => 1", "( ) => { }", "( x , y ) => a", "async x => a", "async ( ) => { }", "x => a . b", "x => { a . b }", "( ) => { a ; }"]).to_string(), false),
            11 => (self.r.pick(&["f ( )", "f ( a )", "a . b ( )", "f ( ) ( )", "a [ 0 ] ( b )", "a . b ( ... c )"]).to_string(), true),
            12 => (self.r.pick(&["new a", "new a ( )", "new a . b", "new a ( b , c )"]).to_string(), true),
            13 => (self.r.pick(&["function ( ) { }", "function f ( a ) { }", "function * ( ) { }", "async function ( ) { }", "function ( ) { a . b }", "function ( ) { [ a ] = b }", "class { m ( ) { a . b } }", "class { }", "class B { }", "class extends a { }"]).to_string(), true),
            14 => (self.r.pick(&["a `t`", "a . b `t`", "( a , b )", "( a + b )", "( 1 )", "( a = b )", "( f ( ) )", "( x => 1 )", "( a ? b : c )", "( [ a ] )", "( { a } )", "( - a )"]).to_string(), true),
            15 if c.in_fn && !c.params => ("new . target".into(), true),
            16 if c.yld && !c.params => (self.r.pick(&["yield", "yield a", "yield * a"]).to_string(), false),
            17 if c.awt && !c.params => (self.r.pick(&["await a", "await a . b"]).to_string(), true),
            18 => ("import ( a )".into(), true),
            _ => (format!("{} {} {} ? {} : {}", x, bin, y, z, m), false),
        }
    }
    fn bad_target(&mut self, c: &C, kind: &str) -> String {
        let (e, tight) = self.no_target(c);
        let p = format!("( {} )", e);
        let asg = self.r.pick(&["=", "+=", "-=", "**=", "<<=", "|="]).to_string();
        let upd = self.r.pick(&["++", "--"]).to_string();
        // what stands unparenthesised as an element of a literal; an assignment there has a default instead
        let el = if tight || e.contains('?') || e.contains("=>") { if self.r.p(50) { e.clone() } else { p.clone() } } else { p.clone() };
        let el = if e.starts_with("async") || e.starts_with("function") || e.starts_with("class") { p.clone() } else { el };
        match kind {
            "update" => match self.r.n(2) { 0 => format!("{} {}", p, upd), _ => format!("{} {}", upd, p) },
            "for" => { let io = self.r.pick(&["in", "of"]).to_string(); match self.r.n(5) {
                0 | 1 => format!("for ( {} {} x ) ;", p, io),
                2 => format!("for ( [ {} ] {} x ) ;", el, io),
                3 => format!("for ( {{ a : {} }} {} x ) ;", el, io),
                _ => format!("for ( [ b , ... {} ] {} x ) ;", el, io) } }
            "params" => {
                // what is no binding element: a target that is no name, a name in parentheses, or no target at all
                let b = match self.r.n(4) { 0 => self.r.pick(&["a . b", "a [ 0 ]", "( a )", "( a . b )", "( [ a ] )", "( { a } )", "( a = 1 )", "this . a"]).to_string(), _ => el.clone() };
                let inner = match self.r.n(7) { 0 => format!("[ {} ]", b), 1 => format!("{{ a : {} }}", b), 2 => format!("[ , {} ]", b), 3 => format!("[ ... {} ]", b), 4 => format!("{{ c , a : [ {} ] }}", b), _ => b };
                let list = match self.r.n(9) { 0 => format!("( {} , )", inner), 1 => format!("( a , {} )", inner), 2 => format!("( {} , a )", inner), 3 => format!("( {} , ... a )", inner), 4 => format!("( a , {} , )", inner), 5 => format!("( a , {} , b )", inner), 6 => format!("( [ a ] , {{ b }} , {} )", inner), _ => format!("( {} )", inner) };
                match self.r.n(3) { 0 => format!("async {} => 1", list), 1 => format!("{} => {{ }}", list), _ => format!("{} => 1", list) }
            }
            _ => match self.r.n(14) {
                0 | 1 | 2 => format!("{} {} 1", p, asg),
                3 => format!("x = {} {} 1", p, asg),
                4 => format!("[ {} ] = x", el),
                5 => format!("[ a , {} , b ] = x", el),
                6 => format!("[ ... {} ] = x", el),
                7 => format!("[ {} = 1 ] = x", p),
                8 => format!("( {{ a : {} }} = x )", el),
                9 => format!("( {{ a , b : {} , c }} = x )", el),
                10 => format!("( {{ ... {} }} = x )", el),
                11 => format!("( {{ a : {} = 1 }} = x )", p),
                12 => format!("[ [ {} ] ] = x", el),
                _ => format!("( {{ a : [ {{ b : {} }} ] }} = x )", el),
            },
        }
    }
    pub fn inject_expr(&mut self, c: &C) -> Option<Expr> {
        let k = self.inject?;
        let frag: Vec<&str> = match k {
            "target:assign" => vec!["1 = a", "a + b = c", "f ( ) = c", "( a = 1 ) = 2", "this = 1", "new a = 1", "'s' = 1", "- a = 1", "a ++ = 1", "`t` = 1", "( x => 1 ) = 2", "[ a ] += 1", "( { a } ) += 1",
                "( a , b ) = 1", "( [ a ] ) = 1", "( { a } ) = 1", "[ 1 ] = x", "[ f ( ) ] = x", "[ a + b ] = x", "[ ... a , b ] = x", "[ a += 1 ] = x", "[ ( a = 1 ) ] = x", "true = 1", "a `x` = 1", "a || b = 1", "x = 1 = 2",
                "[ a , b + c , d ] = x", "[ [ a + b ] ] = x", "[ ... f ( ) ] = x", "( { a : b + c } = x )", "( { a ( ) { } } = x )", "( { get a ( ) { } } = x )", "( { a : ( b = 1 ) } = x )", "( { ... f ( ) } = x )",
                "( { a : 1 , b } = x )", "( { b , c : f ( ) } = x )", "( { a : [ b + 1 ] } = x )", "a . b ( ) = 1", "typeof a = 1", "x = f ( ) = 2", "class { } = 1", "import ( a ) = 1", "a ** b = 1", "[ ( [ a ] ) ] = 1",
                "1 += a", "a + b *= c", "f ( ) -= c", "( a , b ) <<= 1", "- a **= 1", "x = 1 |= 2", "function ( ) { } = 1", "[ ... a = 1 ] = x", "[ b , ... a = c ] = x", "( { ... a = 1 } = x )", "( { ... { a } } = x )", "( { ... [ a ] } = x )", "( { ... a , b } = x )", "( { ... a , } = x )", "( { b , ... a , } = x )", "( [ ... a = 1 ] ) => 1", "( { ... a = 1 } ) => 1", "( { ... { a } } ) => 1", "( { ... a , b } ) => 1", "a ? b : c ++ = 1", "[ , 1 ] = x", "[ a , [ 1 ] ] = x"],
            "target:update" => vec!["++ 1", "f ( ) ++", "++ a ++", "this --", "[ a ] ++", "++ [ a ]", "++ a . b ( )", "( a + b ) ++", "-- ( a , b )", "'s' ++", "++ this", "++ - a", "`t` --", "( a = b ) ++", "++ ( a => 1 )", "new a ( ) ++", "-- typeof a", "( [ a ] ) ++", "( { a } ) --", "a `t` ++"],
            "target:params" => vec!["( 1 ) => 1", "( 1 , ) => 1", "( a . b , ) => 1", "( a . b ) => 1", "async ( ... a , b ) => 1", "async ( ... a , ) => 1", "( ... a , b ) => 1", "( ... a , ) => 1", "( ( a ) ) => 1", "async ( ( a ) ) => 1", "( [ a . b ] ) => 1", "( { a : b . c } ) => 1", "( a += 1 ) => 1", "async ( a += 1 ) => 1",
                "( [ ... a , b ] ) => 1", "( { ... a , b } ) => 1", "( a , ... b , c ) => 1", "( a , ... b . c ) => 1", "( a , ... b = 1 ) => 1", "async ( ... a = 1 ) => 1", "( { a ( ) { } } ) => 1", "( { get a ( ) { } } ) => 1", "( { ... a . b } ) => 1", "( [ ... a . b ] ) => 1", "( a , , b ) => 1", "( , ) => 1", "async ( , ) => 1", "f ( a ) => 1", "a . b => 1", "( a ) ( b ) => 1", "1 => 1", "( a , b , 1 ) => 1", "( )", "( a , )", "( ... a )", "( a , ... b )", "( a ? b : c ) => 1", "( - a , ) => 1", "( { a : 1 , } , ) => 1"],
            "ctx:await" if !c.awt && !c.params => vec!["await a", "- await a", "await ( 1 )", "( a , await b )"],
            "ctx:yield" if !c.yld && !c.params => vec!["yield a", "( yield 1 )", "[ yield a ]", "yield 'x'"],
            "ctx:yieldid" if c.yld && !c.params => vec!["1 + yield", "- yield", "! yield", "typeof yield", "a * yield", "a && yield", "new yield", "( yield ) => 1", "yield => 1", "( a , b - yield )"],
            "ctx:awaitid" if c.awt && !c.params => vec!["( await )", "[ await ]", "await = 1", "f ( await )", "a + await = 1", "( await ) => 1"],
            "ctx:newtarget" if !c.in_fn && !c.params => vec!["new . target", "a + new . target"],
            "strict:assign" if c.strict => vec!["eval = 1", "arguments = 2", "eval ++", "-- arguments", "arguments += 1", "++ eval", "eval -= a", "arguments --",
                "[ eval ] = x", "[ a , [ arguments ] ] = x", "( { eval } = x )", "( { a : arguments } = x )", "( { eval = 1 } = x )", "[ ... eval ] = x", "[ eval = 1 ] = x", "( { ... arguments } = x )", "( { b , a : [ eval ] } = x )",
                "eval => 1", "( eval ) => 1", "( a , arguments ) => a", "( [ eval ] ) => 1", "async eval => 1", "async ( arguments ) => 1", "( { arguments } ) => { }", "( eval = 1 ) => 1", "( ... arguments ) => 1", "arguments => { }"],
            "strict:arrow" => vec!["eval => { 'use§strict' }", "( a , arguments ) => { 'use§strict' ; }", "async eval => { 'use§strict' }", "async ( arguments ) => { 'use§strict' }", "( eval ) => { 'use§strict' }", "class eval { }", "class arguments extends a { }"],
            "strict:delete" if c.strict => vec!["delete a", "! delete a", "delete x1"],
            "strict:reserved" if c.strict => vec!["static", "public = 1", "interface + 1", "( package )", "[ private ]", "yield = 1", "let = 1", "protected ++", "implements ( )"],
            "ctx:in" if !c.allow_in => vec![],
            _ => return None,
        };
        if frag.is_empty() || !self.inj(k) { return None; }
        let mut f = self.r.pick(&frag).to_string();
        if k.starts_with("target:") && self.r.p(70) { f = self.bad_target(c, &k[7..]); }
        self.frag(&f);
        Some(Expr::This)
    }
    pub fn frag(&mut self, f: &str) {
        let n = self.out.len();
        for w in f.split(' ') {
            let w = &w.replace('§', " ")[..];
            let k = if w.starts_with('`') { K::Tmpl } else if w == ";" { self.t(";"); continue; } else { K::Punct };
            if k == K::Tmpl { self.tk(w, K::Tmpl) } else { self.t(w) }
        }
        for t in self.out[n + 1..].iter_mut() { t.nonl = true; }
        self.injected = Some(format!("{}: {}", self.inject.unwrap_or(""), f));
    }

    // ---- statements ----
    pub fn item_nostr(&mut self, c: &C, first: bool) -> ProgramPart {
        let n = self.out.len();
        let p = self.item(c);
        if first && self.out[n].k == K::Str {
            if c.method || matches!(p, ProgramPart::Stmt(Stmt::Expr(Expr::Literal(_)))) {
                self.cut(n);
                self.t(";");
                return ProgramPart::Stmt(Stmt::Empty);
            }
        }
        p
    }
    pub fn items(&mut self, c: &C, max: usize) -> Vec<ProgramPart> {
        let n = if self.fuel > 0 { self.r.n(max + 1) } else { 0 };
        (0..n).map(|_| self.item(c)).collect()
    }
    pub fn item(&mut self, c: &C) -> ProgramPart {
        let d = self.pr.def > 0;
        match self.r.n(14) {
            0 | 1 if d || self.r.p(25) => {
                self.t("function");
                let gen = self.r.p(25);
                if gen { self.t("*"); }
                let id = self.fname(c);
                let f = self.fn_rest(c, Some(id), gen, false, None, false);
                ProgramPart::Decl(Decl::Function(f))
            }
            2 | 3 if d || self.r.p(15) => ProgramPart::Decl(Decl::Class(self.class(c, false))),
            4 | 5 => {
                let kind = if self.r.p(50) { VariableKind::Let } else { VariableKind::Const };
                let v = self.lexical(c, kind);
                self.semi();
                ProgramPart::Decl(Decl::Variable(kind, v))
            }
            _ => ProgramPart::Stmt(self.stmt(c)),
        }
    }
    pub fn fname(&mut self, c: &C) -> String {
        if c.strict && self.inj("strict:fname") { let s = self.r.pick(&["eval", "arguments", "static", "public"]).to_string(); self.t(&s); return s; }
        let s = self.plain(); self.t(&s); s
    }
    pub fn lexical(&mut self, c: &C, kind: VariableKind) -> Vec<VariableDecl> {
        self.t(if kind == VariableKind::Let { "let" } else { "const" });
        self.declarators(c, kind, false)
    }
    pub fn declarators(&mut self, c: &C, kind: VariableKind, in_for: bool) -> Vec<VariableDecl> {
        let n = if self.r.p(25) { 2 } else { 1 };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 { self.t(","); }
            v.push(self.declarator(c, kind, in_for));
        }
        v
    }
    pub fn declarator(&mut self, c: &C, kind: VariableKind, _in_for: bool) -> VariableDecl {
        if c.strict && self.inj("strict:declname") { let s = self.r.pick(&["eval", "arguments"]).to_string(); self.t(&s); if kind != VariableKind::Var { self.ts(&["=", "1"]); } return VariableDecl { id: Pat::Identifier(s), init: None }; }
        let id = self.binding_pat(c, 2, kind == VariableKind::Var);
        if kind == VariableKind::Const && !_in_for && self.inj("early:const") { return VariableDecl { id, init: None }; }
        if !matches!(id, Pat::Identifier(_)) && !_in_for && self.inj("early:destruct") { return VariableDecl { id, init: None }; }
        let need = kind == VariableKind::Const || !matches!(id, Pat::Identifier(_));
        let init = if need || self.r.p(50) { self.t("="); Some(self.assign(c)) } else { None };
        VariableDecl { id, init }
    }
    pub fn block(&mut self, c: &C) -> Vec<ProgramPart> {
        self.t("{");
        let v = self.items(c, 3);
        self.t("}");
        v
    }
    pub fn expr_stmt(&mut self, c: &C) -> Stmt {
        let n = self.out.len();
        let e = self.expression(c);
        let s = self.out[n].s.clone();
        let next = self.out.get(n + 1).map(|t| t.s.clone()).unwrap_or_default();
        if s == "{" || s == "function" || s == "class" || s == "let" || (s == "async" && next == "function") {
            self.out.insert(n, Tok { s: "(".into(), k: K::Punct, nonl: false, forcenl: false });
            self.t(")");
        }
        self.semi();
        Stmt::Expr(e)
    }
    /// a statement that an else can follow
    pub fn closed(&mut self, c: &C) -> Stmt {
        if self.r.p(50) { return Stmt::Block(self.block(c)); }
        match self.r.n(4) { 0 => { self.t(";"); Stmt::Empty } _ => self.expr_stmt(c) }
    }
    pub fn inject_stmt(&mut self, c: &C) -> Option<Stmt> {
        let k = self.inject?;
        let lab = |v: &Vec<String>, g: &mut G| v[g.r.n(v.len())].clone();
        let f: String = match k {
            "early:return" if !c.in_fn => self.r.pick(&["return ;", "return a ;", "{ return 1 ; }", "if ( a ) return ;"]).into(),
            "early:break" if !c.in_iter && !c.in_switch => self.r.pick(&["break ;", "{ break ; }", "if ( a ) break ;", "try { break ; } finally { }", "while ( a ) b ; break ;", "switch ( a ) { } break ;", "do a ; while ( b ) ; break ;", "for ( ; ; ) a ; break ;", "for ( a of b ) ; break ;", "for ( a in b ) { } break ;", "for ( let a in b ) { } break ;"]).into(),
            "early:continue" if !c.in_iter => self.r.pick(&["continue ;", "{ continue ; }", "switch ( a ) { case 1 : continue ; }", "while ( a ) b ; continue ;", "for ( ; ; ) { } continue ;", "for ( var a in b ) { } continue ;", "for ( let a of b ) { } { continue ; }", "do { } while ( a ) ; continue ;"]).into(),
            "early:label-undef" if c.in_iter || self.r.p(30) => self.r.pick(&["break zz ;", "continue zz ;", "zz : a ; break zz ;", "zz : { } { break zz ; }", "zz : while ( a ) { } continue zz ;", "while ( a ) { break zz ; }", "zz : for ( ; ; ) ( function ( ) { break zz ; } ) ;", "zz : for ( ; ; ) { class A { a ( ) { break zz ; } } }", "zz : while ( 1 ) a = ( ) => { continue zz ; } ;", "zz : while ( 1 ) ( { a ( ) { break zz ; } } ) ;", "zz : while ( 1 ) ( { get a ( ) { break zz ; } } ) ;"]).into(),
            "early:label-outer" if !c.outer_labels.is_empty() => { let l = lab(&c.outer_labels, self); if c.in_iter { format!("continue {} ;", l) } else { format!("break {} ;", l) } }
            "early:label-dup" => { if !c.labels.is_empty() && self.r.p(60) { let l = lab(&c.labels, self); format!("{} : a ;", l) } else { self.r.pick(&["zz : zz : a ;", "zz : { zz : a ; }", "zz : while ( a ) { zz : b ; }", "zz : yy : zz : a ;", "zz : if ( a ) zz : b ;", "zz : for ( ; ; ) { if ( a ) { zz : for ( ; ; ) ; } }"]).into() } }
            "early:default" => self.r.pick(&["switch ( a ) { default : default : }", "switch ( a ) { default : b ; case 1 : default : c ; }", "switch ( a ) { case 1 : default : { } case 2 : case 3 : default : }"]).into(),
            "early:try" => self.r.pick(&["try { }", "try { a ; } b ;", "{ try { } }"]).into(),
            "early:const" => self.r.pick(&["{ const a ; }", "{ const a = 1 , b ; }", "for ( const a ; ; ) ;", "for ( const a = 1 , b ; ; ) ;"]).into(),
            "early:destruct" => self.r.pick(&["var [ a ] ;", "var a , { b } ;", "{ let [ a ] ; }", "{ let { a } ; }", "{ const { a } ; }", "var [ a ] , b = 1 ;"]).into(),
            "target:for" if self.r.p(70) => self.bad_target(c, "for"),
            "target:for" => self.r.pick(&["for ( 1 of x ) ;", "for ( f ( ) in x ) ;", "for ( a = 1 of x ) ;", "for ( this in x ) ;", "for ( a + b of x ) ;", "for ( - a in x ) ;", "for ( a ++ of x ) ;", "for ( 's' in x ) ;", "for ( [ f ( ) ] of x ) ;", "for ( ( a , b ) of x ) ;", "for ( `t` of x ) ;", "for ( new a of x ) ;", "for ( { a : 1 } of x ) ;", "for ( a => 1 of x ) ;"]).into(),
            "strict:for" if c.strict => self.r.pick(&["for ( eval in x ) ;", "for ( arguments of x ) ;", "for ( [ eval ] of x ) ;", "for ( { a : eval } in x ) ;"]).into(),
            "strict:cls" => self.r.pick(&["class eval { }", "class arguments extends a { }"]).into(),
            "strict:with" if c.strict => self.r.pick(&["with ( a ) b ;", "with ( a ) { }", "if ( a ) with ( b ) ;"]).into(),
            "strict:iffn" if c.strict => self.r.pick(&["if ( a ) function f ( ) { }", "if ( a ) ; else function f ( ) { }"]).into(),
            "strict:catch" if c.strict => self.r.pick(&["try { } catch ( eval ) { }", "try { } catch ( arguments ) { }"]).into(),
            "ctx:in" => self.r.pick(&["for ( var x = a in b ; ; ) ;", "for ( x = a in b ; ; ) ;", "for ( let x = a in b ; ; ) ;", "for ( let x = 1 , y = a in b ; ; ) ;", "for ( x = y => a in b ; ; ) ;", "for ( x = 1 , y = a in b ; ; ) ;", "for ( x = a ? b : c in d ; ; ) ;", "for ( var x , y = a in b ; ; ) ;"]).into(),
            "ctx:forawait" => self.r.pick(&["for await ( ; ; ) ;", "for await ( a in b ) ;", "for await ( let a in b ) ;", "for await ( var a = 1 ; ; ) ;"]).into(),
            "ctx:forawait-out" if !c.awt => self.r.pick(&["for await ( a of b ) ;", "for await ( let a of b ) ;", "for await ( var a of b ) { }", "if ( a ) for await ( [ b ] of c ) ;", "{ for await ( const { a } of b ) a ; }", "( async function ( ) { } ) ; for await ( a of b ) ;"]).into(),
            "asi:throw" if self.r.p(50) => { if !self.inj(k) { return None; } self.t("throw"); self.t("a"); self.out.last_mut().unwrap().forcenl = true; self.semi(); return Some(Stmt::Empty); }
            "asi:postfix" => { if !self.inj(k) { return None; } self.t("a"); self.t("++"); self.out.last_mut().unwrap().forcenl = true; self.t(";"); return Some(Stmt::Empty); }
            "asi:missing" => { if !self.inj(k) { return None; } let a = self.r.pick(&["a 1", "a b", "a ( ) b", "var a var b", "1 2", "'a' + b 3", "throw a b", "debugger a", "a = 1 var b", "a => 1 b", "let a let b", "( a ) b", "[ ] 1", "a ++ b", "this a", "x = function ( ) { } a", "x = { } a", "a . b c", "if ( a ) b else c", "do a while ( b )", "`t` a", "const x = 1 y"]).to_string(); self.t("{"); self.frag(&a); for t in self.out.iter_mut().rev().take(a.split(' ').count()) { t.nonl = true; } self.t(";"); self.t("}"); return Some(Stmt::Empty); }
            _ => return None,
        };
        if !self.inj(k) { return None; }
        self.frag(&f);
        Some(Stmt::Empty)
    }
    pub fn stmt(&mut self, c: &C) -> Stmt {
        if let Some(s) = self.inject_stmt(c) { return s; }
        if !self.burn() { let e = self.trivial(c); self.semi(); return Stmt::Expr(e); }
        if self.pr.stmt == 0 && !self.r.p(20) {
            if self.r.p(40) { self.t("var"); let v = self.declarators(c, VariableKind::Var, false); self.semi(); return Stmt::Var(v); }
            return self.expr_stmt(c);
        }
        let mut ic = c.clone(); ic.in_iter = true;
        match self.r.n(22) {
            0 => { self.t(";"); Stmt::Empty }
            1 => { self.t("debugger"); self.semi(); Stmt::Debugger }
            2 | 3 => Stmt::Block(self.block(c)),
            4 | 5 => { self.t("var"); let v = self.declarators(c, VariableKind::Var, false); self.semi(); Stmt::Var(v) }
            6 | 7 => {
                self.t("if");
                let test = self.paren_expr(c);
                if self.r.p(45) {
                    let s = self.closed(c);
                    self.t("else");
                    let e = self.stmt(c);
                    Stmt::If(IfStmt { test, consequent: Box::new(s), alternate: Some(Box::new(e)) })
                } else { let s = self.noelse(c); Stmt::If(IfStmt { test, consequent: Box::new(s), alternate: None }) }
            }
            8 => { self.t("while"); let test = self.paren_expr(c); let b = self.stmt(&ic); Stmt::While(WhileStmt { test, body: Box::new(b) }) }
            9 => { self.t("do"); let b = self.stmt(&ic); self.t("while"); let test = self.paren_expr(c); self.tk("", K::DoSemi); Stmt::DoWhile(DoWhileStmt { test, body: Box::new(b) }) }
            10 | 11 | 12 => self.for_stmt(c),
            13 => {
                self.t("switch");
                let discriminant = self.paren_expr(c);
                self.t("{");
                let mut sc = c.clone(); sc.in_switch = true;
                let n = self.r.n(4);
                let d = self.r.n(6);
                let mut cases = vec![];
                for i in 0..n {
                    let test = if i == d { self.t("default"); None } else { self.t("case"); Some(self.expression(c)) };
                    self.t(":");
                    let consequent = self.items(&sc, 2);
                    cases.push(SwitchCase { test, consequent });
                }
                self.t("}");
                Stmt::Switch(SwitchStmt { discriminant, cases })
            }
            14 => { self.t("throw"); let n = self.out.len(); let e = self.expression(c); self.out[n].nonl = true; self.semi(); Stmt::Throw(e) }
            15 => {
                self.t("try");
                let block = self.block(c);
                let k = self.r.n(3);
                let handler = if k != 1 { self.t("catch"); let param = if self.r.p(70) { self.t("("); let p = self.catch_pat(c); self.t(")"); Some(p) } else { None }; let body = self.block(c); Some(CatchClause { param, body }) } else { None };
                let finalizer = if k != 0 { self.t("finally"); Some(self.block(c)) } else { None };
                Stmt::Try(TryStmt { block, handler, finalizer })
            }
            16 if !c.strict => { self.t("with"); let object = self.paren_expr(c); let b = self.stmt(c); Stmt::With(WithStmt { object, body: Box::new(b) }) }
            17 | 18 => {
                self.nlabel += 1;
                let looped = self.r.p(60);
                let l = format!("{}{}", if looped { "L" } else { "l" }, self.nlabel);
                self.t(&l); self.t(":");
                let mut lc = c.clone(); lc.labels.push(l.clone());
                let b = if looped { match self.r.n(3) { 0 => { self.t("while"); let test = self.paren_expr(&lc); lc.in_iter = true; let b = self.stmt(&lc); Stmt::While(WhileStmt { test, body: Box::new(b) }) } _ => self.for_stmt(&lc) } }
                    else if !c.strict && self.r.p(15) { self.t("function"); let id = self.plain(); self.t(&id); Stmt::Expr(Expr::Function(self.fn_rest(&lc, Some(id), false, false, None, false))) }
                    else { self.stmt(&lc) };
                Stmt::Labeled(LabeledStmt { label: l, body: Box::new(b) })
            }
            19 => {
                let br = self.r.p(50);
                let w = if br { "break" } else { "continue" };
                let cand: Vec<String> = c.labels.iter().filter(|l| br || (l.starts_with('L') && c.in_iter)).cloned().collect();
                if !cand.is_empty() && self.r.p(60) {
                    let l = cand[self.r.n(cand.len())].clone();
                    self.t(w); self.tn(&l); self.semi();
                    return if br { Stmt::Break(Some(l)) } else { Stmt::Continue(Some(l)) };
                }
                if c.in_iter || (br && c.in_switch) { self.t(w); self.semi(); return if br { Stmt::Break(None) } else { Stmt::Continue(None) }; }
                self.t(";"); Stmt::Empty
            }
            20 if c.in_fn => self.return_stmt(c),
            21 if self.pr.def > 0 || self.pr.look > 0 => {
                self.t("async"); self.tn("function"); let gen = self.r.p(25); if gen { self.t("*"); } let id = self.plain(); self.t(&id);
                Stmt::Expr(Expr::Function(self.fn_rest(c, Some(id), gen, true, None, false)))
            }
            _ => self.expr_stmt(c),
        }
    }
    pub fn catch_pat(&mut self, c: &C) -> Pat { let mut cc = c.clone(); cc.params = false; self.binding_pat(&cc, 1, true) }
    /// statement after an if with no else: an else of an outer if must not attach to it
    pub fn noelse(&mut self, c: &C) -> Stmt { self.stmt(c) }
    pub fn paren_expr(&mut self, c: &C) -> Expr { self.t("("); let mut cc = c.clone(); cc.allow_in = true; cc.noyield = false; let e = self.expression(&cc); self.t(")"); e }
    pub fn for_stmt(&mut self, c: &C) -> Stmt {
        let mut hc = c.clone(); hc.allow_in = false;
        let mut bc = c.clone(); bc.in_iter = true;
        self.t("for");
        let aw = c.awt && self.r.p(25);
        if aw { self.t("await"); }
        self.t("(");
        let kind = [VariableKind::Var, VariableKind::Let, VariableKind::Const][self.r.n(3)];
        let kw = match kind { VariableKind::Var => "var", VariableKind::Let => "let", VariableKind::Const => "const" };
        if !aw && self.r.p(40) {
            let init = match self.r.n(5) {
                0 => None,
                1 | 2 => { self.t(kw); let v = self.declarators(&hc, kind, false); Some(LoopInit::Variable(kind, v)) }
                _ => { let n = self.out.len(); let e = self.expression(&hc); if self.out[n].s == "let" || self.out[n].s == "async" { self.out.insert(n, Tok { s: "(".into(), k: K::Punct, nonl: false, forcenl: false }); self.t(")"); } Some(LoopInit::Expr(e)) }
            };
            self.t(";");
            let test = if self.r.p(70) { Some(self.expression(c)) } else { None };
            self.t(";");
            let update = if self.r.p(70) { Some(self.expression(c)) } else { None };
            self.t(")");
            let body = Box::new(self.stmt(&bc));
            return Stmt::For(ForStmt { init, test, update, body });
        }
        let left = match self.r.n(6) {
            0 | 1 | 2 => { self.t(kw); let id = self.binding_pat(&hc, 2, kind == VariableKind::Var); LoopLeft::Variable(kind, VariableDecl { id, init: None }) }
            3 | 4 => { let n = self.out.len(); let e = self.simple_target(&hc); if self.out[n].s == "let" || self.out[n].s == "async" { self.cut(n); self.t("a"); LoopLeft::Expr(ident("a")) } else { LoopLeft::Expr(e) } }
            _ => { let e = self.assign_pattern(&hc, 1); LoopLeft::Expr(e) }
        };
        if aw || self.r.p(50) {
            self.t("of");
            let right = self.assign(c);
            self.t(")");
            let body = Box::new(self.stmt(&bc));
            return Stmt::ForOf(ForOfStmt { left, right, body, is_await: aw });
        }
        self.t("in");
        let right = self.expression(c);
        self.t(")");
        let body = Box::new(self.stmt(&bc));
        Stmt::ForIn(ForInStmt { left, right, body })
    }

    // ---- modules ----
    pub fn iname(&mut self) -> String { self.r.pick(&["a", "b", "default", "if", "as", "from", "async", "of", "x1", "null", "class"]).to_string() }
    pub fn source(&mut self) -> Literal { let s = self.r.pick(&["'m'", "\"./n.js\"", "''"]).to_string(); self.t(&s); Literal::String(s) }
    pub fn import_named(&mut self) -> Vec<ImportSpecifier> {
        self.t("{");
        let mut v = vec![];
        let n = self.r.n(4);
        for i in 0..n {
            let s = loop { let s = self.iname(); if s != "null" { break s; } };
            self.t(&s);
            let kw = ["default", "if", "class"].contains(&s.as_str());
            let l = if kw || self.r.p(40) { self.t("as"); let l = self.plain(); self.t(&l); Some(l) } else { None };
            v.push(ImportSpecifier::Normal(s, l));
            if i + 1 < n || self.r.p(15) { self.t(","); }
        }
        self.t("}");
        v
    }
    pub fn mod_item(&mut self, c: &C) -> ProgramPart {
        if self.inject == Some("mod:bad") && self.inj("mod:bad") {
            let f = self.r.pick(&["import { a } ;", "import a , b from 'm' ;", "import * a from 'm' ;", "import a 'm' ;", "import { a as } from 'm' ;", "import { a b } from 'm' ;", "import { default } ;", "export { a } from b ;", "export * as ;", "export a ;", "export 1 ;",
                "export { default } ;", "export { a as b c } ;", "import { a } from b ;", "import { a as if } from 'm' ;", "import , { a } from 'm' ;", "export default var a ;", "export default let b = 1 ;", "export if ( a ) ;", "import * as a , b from 'm' ;", "export { a , , b } ;", "import { , a } from 'm' ;",
                "import 'm' a ;", "export * 'm' ;", "import { a } from ;", "export { a } from ;", "export default ;", "export var ;", "import a from 'm' 'n' ;", "import a with 'm' ;", "export async a ;", "import { * } from 'm' ;"]).to_string();
            self.frag(&f);
            return ProgramPart::Stmt(Stmt::Empty);
        }
        if self.r.p(45) {
            self.t("import");
            let mut specifiers = vec![];
            match self.r.n(6) {
                0 => { let source = self.source(); self.semi(); return ProgramPart::Decl(Decl::Import(Box::new(ModImport { specifiers, source }))); }
                1 => { let s = self.plain(); self.ts(&["*", "as", &s]); specifiers.push(ImportSpecifier::Namespace(s)); }
                2 => { let s = self.plain(); self.t(&s); specifiers.push(ImportSpecifier::Default(s)); }
                3 => specifiers = self.import_named(),
                4 => { let s = self.plain(); self.t(&s); specifiers.push(ImportSpecifier::Default(s)); self.t(","); let mut v = self.import_named(); specifiers.append(&mut v); }
                _ => { let s = self.plain(); self.t(&s); specifiers.push(ImportSpecifier::Default(s)); let s = self.plain(); self.ts(&[",", "*", "as", &s]); specifiers.push(ImportSpecifier::Namespace(s)); }
            }
            self.t("from");
            let source = self.source();
            self.semi();
            return ProgramPart::Decl(Decl::Import(Box::new(ModImport { specifiers, source })));
        }
        self.t("export");
        let e = match self.r.n(9) {
            0 => { self.ts(&["*", "from"]); let s = self.source(); self.semi(); ModExport::All(s) }
            1 | 2 => {
                self.t("{");
                let n = self.r.n(4);
                let mut v = vec![];
                let mut must = false;
                for i in 0..n {
                    let s = loop { let s = self.iname(); if s != "null" { break s; } };
                    if s == "default" { must = true; }
                    self.t(&s);
                    let e = if self.r.p(40) { let e = loop { let s = self.iname(); if s != "null" { break s; } }; self.t("as"); self.t(&e); Some(e) } else { None };
                    v.push(ExportSpecifier { local: s, exported: e });
                    if i + 1 < n || self.r.p(15) { self.t(","); }
                }
                self.t("}");
                let src = if must || self.r.p(50) { self.t("from"); Some(self.source()) } else { None };
                self.semi();
                ModExport::Named(NamedExportDecl::Specifier(v, src))
            }
            3 => { let kind = if self.r.p(50) { VariableKind::Let } else { VariableKind::Const }; let v = self.lexical(c, kind); self.semi(); ModExport::Named(NamedExportDecl::Decl(Decl::Variable(kind, v))) }
            4 => { self.t("var"); let v = self.declarators(c, VariableKind::Var, false); self.semi(); ModExport::Named(NamedExportDecl::Decl(Decl::Variable(VariableKind::Var, v))) }
            5 => { let d = self.r.n(3); match d {
                0 => { let cl = self.class(c, false); ModExport::Named(NamedExportDecl::Decl(Decl::Class(cl))) }
                1 => { self.t("function"); let gen = self.r.p(25); if gen { self.t("*"); } let id = self.plain(); self.t(&id); let f = self.fn_rest(c, Some(id), gen, false, None, false); ModExport::Named(NamedExportDecl::Decl(Decl::Function(f))) }
                _ => { self.t("async"); self.tn("function"); let gen = self.r.p(25); if gen { self.t("*"); } let id = self.plain(); self.t(&id); let f = self.fn_rest(c, Some(id), gen, true, None, false); ModExport::Named(NamedExportDecl::Decl(Decl::Function(f))) }
            } }
            6 => { self.t("default"); match self.r.n(3) {
                0 => { let cl = self.class(c, true); ModExport::Default(DefaultExportDecl::Decl(Decl::Class(cl))) }
                1 => { self.t("function"); let gen = self.r.p(25); if gen { self.t("*"); } let id = if self.r.p(50) { let s = self.plain(); self.t(&s); Some(s) } else { None }; let f = self.fn_rest(c, id, gen, false, None, false); ModExport::Default(DefaultExportDecl::Decl(Decl::Function(f))) }
                _ => { self.t("async"); self.tn("function"); let gen = self.r.p(25); if gen { self.t("*"); } let id = if self.r.p(50) { let s = self.plain(); self.t(&s); Some(s) } else { None }; let f = self.fn_rest(c, id, gen, true, None, false); ModExport::Default(DefaultExportDecl::Decl(Decl::Function(f))) }
            } }
            _ => { self.t("default"); let n = self.out.len(); let e = self.assign(c); let s = self.out[n].s.clone();
                if s == "function" || s == "class" || s == "async" { self.out.insert(n, Tok { s: "(".into(), k: K::Punct, nonl: false, forcenl: false }); self.t(")"); }
                self.semi(); ModExport::Default(DefaultExportDecl::Expr(e)) }
        };
        ProgramPart::Decl(Decl::Export(Box::new(e)))
    }
    pub fn program(&mut self, module: bool, len: usize) -> Program {
        let mut c = C { yld: false, awt: false, strict: module, in_fn: false, in_iter: false, in_switch: false, allow_in: true, method: false, module, labels: vec![], outer_labels: vec![], noyield: false, arrow: false, params: false };
        if self.inject.map(|k| k.starts_with("strict:")).unwrap_or(false) && !module && self.r.p(40) { c.strict = true; }
        let mut v = vec![];
        if c.strict && !module { self.t("'use strict'"); self.semi(); v.push(ProgramPart::Dir(Dir { dir: "use strict".into(), expr: Literal::String("'use strict'".into()) })); }
        v.append(&mut self.directives(&mut c, true));
        for i in 0..len {
            let f = self.fuel;
            self.fuel = f / (len - i) as i32 + 2;
            let give = f - self.fuel;
            let p = if module && self.pr.module > 0 && self.r.p(60) { self.mod_item(&c) } else { self.item_nostr(&c, i == 0) };
            v.push(p);
            self.fuel = self.fuel.max(0) + give;
        }
        if module { Program::Mod(v) } else { Program::Script(v) }
    }
}
