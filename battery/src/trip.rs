//! Writes a tree back as text, to be compared with the source: no token is dropped, duplicated or misread.
//! White space, ( ) , ; and the word static (which the trees do not keep) are left out on both sides.
use resast::prelude::*;

pub fn canon(s: &str) -> String {
    let t: String = s.chars().filter(|c| !c.is_whitespace() && *c != '\u{feff}' && !"(),;".contains(*c)).collect();
    t.replace("static", "").replace("{}from", "from").replace("importfrom", "import")
}
pub fn text(p: &Program) -> String {
    let mut w = W(String::new());
    match p { Program::Mod(v) | Program::Script(v) => w.parts(v) }
    canon(&w.0)
}
struct W(String);
impl W {
    fn t(&mut self, s: &str) { self.0.push_str(s); }
    fn parts(&mut self, v: &[ProgramPart]) { for p in v { match p { ProgramPart::Dir(d) => self.lit(&d.expr), ProgramPart::Decl(d) => self.decl(d), ProgramPart::Stmt(s) => self.stmt(s) } } }
    fn block(&mut self, v: &[ProgramPart]) { self.t("{"); self.parts(v); self.t("}"); }
    fn decl(&mut self, d: &Decl) {
        match d {
            Decl::Variable(k, v) => { self.kind(k); self.vars(v); }
            Decl::Function(f) => self.func(f),
            Decl::Class(c) => self.class(c),
            Decl::Import(i) => {
                self.t("import");
                let mut open = false;
                for s in &i.specifiers { match s {
                    ImportSpecifier::Default(n) => self.t(n),
                    ImportSpecifier::Namespace(n) => { self.t("*as"); self.t(n) }
                    ImportSpecifier::Normal(a, b) => { if !open { self.t("{"); open = true; } self.t(a); if let Some(b) = b { self.t("as"); self.t(b); } }
                } }
                if open { self.t("}"); }
                if !i.specifiers.is_empty() { self.t("from"); }
                self.lit(&i.source);
            }
            Decl::Export(e) => { self.t("export"); match &**e {
                ModExport::Default(DefaultExportDecl::Decl(d)) => { self.t("default"); self.decl(d) }
                ModExport::Default(DefaultExportDecl::Expr(x)) => { self.t("default"); self.expr(x) }
                ModExport::Named(NamedExportDecl::Decl(d)) => self.decl(d),
                ModExport::Named(NamedExportDecl::Specifier(v, s)) => { self.t("{"); for x in v { self.t(&x.local); if let Some(b) = &x.exported { self.t("as"); self.t(b); } } self.t("}"); if let Some(s) = s { self.t("from"); self.lit(s); } }
                ModExport::All(l) => { self.t("*from"); self.lit(l) }
            } }
        }
    }
    fn kind(&mut self, k: &VariableKind) { self.t(match k { VariableKind::Var => "var", VariableKind::Let => "let", VariableKind::Const => "const" }) }
    fn vars(&mut self, v: &[VariableDecl]) { for d in v { self.pat(&d.id); if let Some(e) = &d.init { self.t("="); self.expr(e); } } }
    fn func(&mut self, f: &Function) {
        if f.is_async { self.t("async"); }
        self.t("function");
        if f.generator { self.t("*"); }
        if let Some(n) = &f.id { self.t(n); }
        self.args(&f.params);
        self.block(&f.body);
    }
    fn args(&mut self, v: &[FunctionArg]) { for a in v { match a { FunctionArg::Expr(e) => self.expr(e), FunctionArg::Pat(p) => self.pat(p) } } }
    fn class(&mut self, c: &Class) {
        self.t("class");
        if let Some(n) = &c.id { self.t(n); }
        if let Some(s) = &c.super_class { self.t("extends"); self.expr(s); }
        self.t("{");
        for p in &c.body { self.prop(p); }
        self.t("}");
    }
    fn prop(&mut self, p: &Property) {
        let method = p.method || !matches!(p.kind, PropertyKind::Init);
        match p.kind { PropertyKind::Get => self.t("get"), PropertyKind::Set => self.t("set"), _ => () }
        if method {
            let f = match &p.value { PropertyValue::Expr(Expr::Function(f)) => f, _ => { self.t("<method without function>"); return } };
            if f.is_async { self.t("async"); }
            if f.generator { self.t("*"); }
            self.key(p);
            self.args(&f.params);
            self.block(&f.body);
            return;
        }
        match &p.value {
            PropertyValue::None => self.key(p),
            v => {
                // a shorthand's value is its default
                self.key(p);
                self.t(if p.short_hand { "=" } else { ":" });
                match v { PropertyValue::Expr(e) => self.expr(e), PropertyValue::Pat(q) => self.pat(q), PropertyValue::None => () }
            }
        }
    }
    fn key(&mut self, p: &Property) {
        if p.computed { self.t("["); }
        match &p.key { PropertyKey::Literal(l) => self.lit(l), PropertyKey::Expr(e) => self.expr(e), PropertyKey::Pat(q) => self.pat(q) }
        if p.computed { self.t("]"); }
    }
    fn lit(&mut self, l: &Literal) {
        match l {
            Literal::Null => self.t("null"),
            Literal::String(s) | Literal::Number(s) => self.t(s),
            Literal::Boolean(b) => self.t(if *b { "true" } else { "false" }),
            Literal::RegEx(r) => { self.t("/"); self.t(&r.pattern); self.t("/"); self.t(&r.flags) }
            Literal::Template(t) => self.tmpl(t),
        }
    }
    fn tmpl(&mut self, t: &TemplateLiteral) {
        // the pieces hold their own delimiters
        for (i, q) in t.quasis.iter().enumerate() {
            self.t(&q.raw);
            if let Some(e) = t.expressions.get(i) { self.expr(e); }
        }
    }
    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Identifier(n) => self.t(n),
            Pat::Object(v) => { self.t("{"); for q in v { match q { ObjectPatPart::Assignment(p) => self.prop(p), ObjectPatPart::Rest(p) => { if !matches!(**p, Pat::RestElement(_)) { self.t("..."); } self.pat(p) } } } self.t("}"); }
            Pat::Array(v) => { self.t("["); for q in v { match q { None => (), Some(ArrayPatPart::Pat(p)) => self.pat(p), Some(ArrayPatPart::Expr(e)) => self.expr(e) } } self.t("]"); }
            Pat::RestElement(p) => { self.t("..."); self.pat(p) }
            Pat::Assignment(a) => { self.pat(&a.left); self.t("="); self.expr(&a.right) }
        }
    }
    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Array(v) => { self.t("["); for x in v { if let Some(x) = x { self.expr(x) } } self.t("]") }
            Expr::ArrowFunction(a) => { if a.is_async { self.t("async"); } self.args(&a.params); self.t("=>"); match &a.body { ArrowFunctionBody::FunctionBody(b) => self.block(b), ArrowFunctionBody::Expr(e) => self.expr(e) } }
            Expr::ArrowParamPlaceHolder(..) => self.t("<placeholder>"),
            Expr::Assignment(a) => {
                match &a.left { AssignmentLeft::Pat(p) => self.pat(p), AssignmentLeft::Expr(e) => self.expr(e) }
                self.t(match a.operator { AssignmentOperator::Equal => "=", AssignmentOperator::PlusEqual => "+=", AssignmentOperator::MinusEqual => "-=", AssignmentOperator::TimesEqual => "*=", AssignmentOperator::DivEqual => "/=", AssignmentOperator::ModEqual => "%=", AssignmentOperator::LeftShiftEqual => "<<=", AssignmentOperator::RightShiftEqual => ">>=", AssignmentOperator::UnsignedRightShiftEqual => ">>>=", AssignmentOperator::OrEqual => "|=", AssignmentOperator::XOrEqual => "^=", AssignmentOperator::AndEqual => "&=", AssignmentOperator::PowerOfEqual => "**=" });
                self.expr(&a.right);
            }
            Expr::Await(e) => { self.t("await"); self.expr(e) }
            Expr::Binary(b) => {
                self.expr(&b.left);
                self.t(match b.operator { BinaryOperator::Equal => "==", BinaryOperator::NotEqual => "!=", BinaryOperator::StrictEqual => "===", BinaryOperator::StrictNotEqual => "!==", BinaryOperator::LessThan => "<", BinaryOperator::GreaterThan => ">", BinaryOperator::LessThanEqual => "<=", BinaryOperator::GreaterThanEqual => ">=", BinaryOperator::LeftShift => "<<", BinaryOperator::RightShift => ">>", BinaryOperator::UnsignedRightShift => ">>>", BinaryOperator::Plus => "+", BinaryOperator::Minus => "-", BinaryOperator::Times => "*", BinaryOperator::Over => "/", BinaryOperator::Mod => "%", BinaryOperator::Or => "|", BinaryOperator::XOr => "^", BinaryOperator::And => "&", BinaryOperator::In => "in", BinaryOperator::InstanceOf => "instanceof", BinaryOperator::PowerOf => "**" });
                self.expr(&b.right);
            }
            Expr::Class(c) => self.class(c),
            Expr::Call(c) => { self.expr(&c.callee); for a in &c.arguments { self.expr(a) } }
            Expr::Conditional(c) => { self.expr(&c.test); self.t("?"); self.expr(&c.consequent); self.t(":"); self.expr(&c.alternate) }
            Expr::Function(f) => self.func(f),
            Expr::Ident(n) => self.t(n),
            Expr::Literal(l) => self.lit(l),
            Expr::Logical(b) => { self.expr(&b.left); self.t(match b.operator { LogicalOperator::Or => "||", LogicalOperator::And => "&&" }); self.expr(&b.right) }
            Expr::Member(m) => { self.expr(&m.object); if m.computed { self.t("["); self.expr(&m.property); self.t("]") } else { self.t("."); self.expr(&m.property) } }
            Expr::MetaProperty(m) => { self.t(&m.meta); self.t("."); self.t(&m.property) }
            Expr::New(n) => { self.t("new"); self.expr(&n.callee); for a in &n.arguments { self.expr(a) } }
            Expr::Object(v) => { self.t("{"); for p in v { match p { ObjectProperty::Property(p) => self.prop(p), ObjectProperty::Spread(e) => { if !matches!(**e, Expr::Spread(_)) { self.t("..."); } self.expr(e) } } } self.t("}") }
            Expr::Sequence(v) => for x in v { self.expr(x) },
            Expr::Spread(e) => { self.t("..."); self.expr(e) }
            Expr::Super => self.t("super"),
            Expr::TaggedTemplate(t) => { self.expr(&t.tag); self.tmpl(&t.quasi) }
            Expr::This => self.t("this"),
            Expr::Unary(u) => { self.t(match u.operator { UnaryOperator::Minus => "-", UnaryOperator::Plus => "+", UnaryOperator::Not => "!", UnaryOperator::Tilde => "~", UnaryOperator::TypeOf => "typeof", UnaryOperator::Void => "void", UnaryOperator::Delete => "delete" }); self.expr(&u.argument) }
            Expr::Update(u) => { let o = match u.operator { UpdateOperator::Increment => "++", UpdateOperator::Decrement => "--" }; if u.prefix { self.t(o); } self.expr(&u.argument); if !u.prefix { self.t(o); } }
            Expr::Yield(y) => { self.t("yield"); if y.delegate { self.t("*"); } if let Some(e) = &y.argument { self.expr(e) } }
        }
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Expr(e) => self.expr(e),
            Stmt::Block(b) => self.block(b),
            Stmt::Empty => (),
            Stmt::Debugger => self.t("debugger"),
            Stmt::With(w) => { self.t("with"); self.expr(&w.object); self.stmt(&w.body) }
            Stmt::Return(e) => { self.t("return"); if let Some(e) = e { self.expr(e) } }
            Stmt::Labeled(l) => { self.t(&l.label); self.t(":"); self.stmt(&l.body) }
            Stmt::Break(l) => { self.t("break"); if let Some(l) = l { self.t(l) } }
            Stmt::Continue(l) => { self.t("continue"); if let Some(l) = l { self.t(l) } }
            Stmt::If(i) => { self.t("if"); self.expr(&i.test); self.stmt(&i.consequent); if let Some(a) = &i.alternate { self.t("else"); self.stmt(a) } }
            Stmt::Switch(w) => { self.t("switch"); self.expr(&w.discriminant); self.t("{"); for c in &w.cases { match &c.test { Some(e) => { self.t("case"); self.expr(e) } None => self.t("default") } self.t(":"); self.parts(&c.consequent) } self.t("}") }
            Stmt::Throw(e) => { self.t("throw"); self.expr(e) }
            Stmt::Try(t) => { self.t("try"); self.block(&t.block); if let Some(h) = &t.handler { self.t("catch"); if let Some(p) = &h.param { self.pat(p) } self.block(&h.body) } if let Some(f) = &t.finalizer { self.t("finally"); self.block(f) } }
            Stmt::While(w) => { self.t("while"); self.expr(&w.test); self.stmt(&w.body) }
            Stmt::DoWhile(w) => { self.t("do"); self.stmt(&w.body); self.t("while"); self.expr(&w.test) }
            Stmt::For(f) => { self.t("for"); match &f.init { Some(LoopInit::Variable(k, v)) => { self.kind(k); self.vars(v) } Some(LoopInit::Expr(e)) => self.expr(e), None => () } if let Some(e) = &f.test { self.expr(e) } if let Some(e) = &f.update { self.expr(e) } self.stmt(&f.body) }
            Stmt::ForIn(f) => { self.t("for"); self.left(&f.left); self.t("in"); self.expr(&f.right); self.stmt(&f.body) }
            Stmt::ForOf(f) => { self.t("for"); if f.is_await { self.t("await") } self.left(&f.left); self.t("of"); self.expr(&f.right); self.stmt(&f.body) }
            Stmt::Var(v) => { self.t("var"); self.vars(v) }
        }
    }
    fn left(&mut self, l: &LoopLeft) {
        match l {
            LoopLeft::Expr(e) => self.expr(e),
            LoopLeft::Variable(k, v) => { self.kind(k); self.pat(&v.id); if let Some(e) = &v.init { self.t("="); self.expr(e) } }
            LoopLeft::Pat(p) => self.pat(p),
        }
    }
}
