//! Mechanical extraction of RESSA source into the subset Verus accepts.
//! Reads one Rust file, applies byte-range edits (listed below) and prints JSON describing every
//! item and function.  Nothing is paraphrased: every byte that is not covered by one of the named
//! edit rules is the byte of the source file.
use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

struct Ed {
    start: usize,
    end: usize,
    text: String,
    rule: &'static str,
    prio: i32,
}

struct V<'a> {
    src: &'a str,
    eds: Vec<Ed>,
    loops: Vec<Value>,
    nloop: usize,
    calls: BTreeSet<String>,
    str_params: BTreeSet<String>,
    slice_mode: bool, // index-with-range on [T] instead of str
    ntmp: usize,
    names: BTreeSet<String>,
    closure_ret: Vec<String>,
    in_closure_desugar: usize,
}

fn nl(s: &str) -> String {
    s.chars().filter(|c| *c == '\n').collect()
}

impl<'a> V<'a> {
    fn t(&self, s: Span) -> &'a str {
        let (a, b) = br(s);
        &self.src[a..b]
    }
    fn ed(&mut self, start: usize, end: usize, text: String, rule: &'static str) {
        self.eds.push(Ed { start, end, text, rule, prio: 0 });
    }
    fn ins(&mut self, at: usize, text: String, rule: &'static str, prio: i32) {
        self.eds.push(Ed { start: at, end: at, text, rule, prio });
    }
    /// source text with all edits inside the range applied
    fn is_str_like(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.str_params.contains(&i.to_string())),
            Expr::Paren(p) => self.is_str_like(&p.expr),
            Expr::Reference(r) => self.is_str_like(&r.expr),
            _ => false,
        }
    }
    fn pushes(&self, b: &Block) -> Vec<String> {
        struct P(Vec<String>);
        impl<'b> Visit<'b> for P {
            fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
                let n = m.method.to_string();
                if n == "push" || n == "append" {
                    if let Expr::Path(p) = &*m.receiver {
                        if let Some(i) = p.path.get_ident() {
                            let s = i.to_string();
                            if !self.0.contains(&s) {
                                self.0.push(s)
                            }
                        }
                    }
                }
                visit::visit_expr_method_call(self, m)
            }
        }
        let mut p = P(vec![]);
        p.visit_block(b);
        p.0
    }
    fn self_calls(&self, b: &Block) -> bool {
        struct P(bool);
        impl<'b> Visit<'b> for P {
            fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident("self") {
                        let n = m.method.to_string();
                        if n.starts_with("parse_") || n.starts_with("expect_") || n.starts_with("next") {
                            self.0 = true;
                        }
                    }
                }
                visit::visit_expr_method_call(self, m)
            }
        }
        let mut p = P(false);
        p.visit_block(b);
        p.0
    }
    fn assigned(&self, b: &Block) -> Vec<String> {
        struct P(Vec<String>);
        impl<'b> Visit<'b> for P {
            fn visit_expr_assign(&mut self, m: &'b ExprAssign) {
                if let Expr::Path(p) = &*m.left {
                    if let Some(i) = p.path.get_ident() {
                        let s = i.to_string();
                        if !self.0.contains(&s) {
                            self.0.push(s)
                        }
                    }
                }
                visit::visit_expr_assign(self, m)
            }
        }
        let mut p = P(vec![]);
        p.visit_block(b);
        p.0
    }
    fn do_loop(&mut self, kind: &str, whole: Span, body: &Block, head: Span, cond: &str) {
        let k = self.nloop;
        self.nloop += 1;
        let (ws, _) = br(whole);
        let (bs, be) = br(body.span());
        self.ins(ws, format!("/*@PRE{k}@*/"), "marker", 0);
        self.ins(bs, format!("/*@INV{k}@*/"), "marker", 0);
        self.ins(bs + 1, format!("/*@TOP{k}@*/"), "marker", 0);
        self.ins(be - 1, format!("/*@BOT{k}@*/"), "marker", 5);
        let line = whole.start().line;
        self.loops.push(json!({"k": k, "kind": kind, "line": line, "cond": cond,
            "push": self.pushes(body), "assign": self.assigned(body), "parses": self.self_calls(body)}));
        let _ = head;
    }
}

fn mac_name(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
const LOGS: &[&str] = &["debug", "trace", "error", "info", "warn", "println", "eprintln", "print"];

impl<'a, 'b> Visit<'b> for V<'a> {
    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
        self.names.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p)
    }
    fn visit_stmt(&mut self, s: &'b Stmt) {
        match s {
            Stmt::Macro(m) if LOGS.contains(&mac_name(&m.mac.path).as_str()) => {
                let (a, b) = br(s.span());
                self.ed(a, b, nl(&self.src[a..b]), "drop-log");
                return;
            }
            Stmt::Local(l) => {
                if let Some(i) = &l.init {
                    let txt = self.t(i.expr.span());
                    if txt.contains("Backtrace") {
                        let (a, b) = br(s.span());
                        self.ed(a, b, nl(&self.src[a..b]), "drop-backtrace");
                        return;
                    }
                }
            }
            _ => {}
        }
        visit::visit_stmt(self, s)
    }
    fn visit_item_fn(&mut self, f: &'b ItemFn) {
        if let ReturnType::Type(_, t) = &f.sig.output {
            let (a, b) = br(t.span());
            self.ins(a, "(r: ".into(), "name-result", 0);
            self.ins(b, ")".into(), "name-result", 0);
        }
        let (a, _) = br(f.block.span());
        self.ins(a, format!("/*@NSIG:{}@*/", f.sig.ident), "marker", 1);
        visit::visit_block(self, &f.block);
    }
    fn visit_expr_macro(&mut self, m: &'b ExprMacro) {
        let n = mac_name(&m.mac.path);
        let (a, b) = br(m.span());
        match n.as_str() {
            "format" if self.src[a..b].replace(' ', "").starts_with("format!(\"${}\",&") => {
                // label keys: a dollar sign followed by the name
                let (s, _) = br(m.mac.tokens.clone().into_iter().nth(2).map(|t| t.span()).unwrap_or(m.span()));
                self.ed(a, s, format!("crate::fmt_dollar({}", nl(&self.src[a..s])), "format");
            }
            "format" => self.ed(a, b, format!("crate::fmt_any(){}", nl(&self.src[a..b])), "format"),
            "cfg" => self.ed(a, b, "false".into(), "cfg"),
            x if LOGS.contains(&x) => self.ed(a, b, format!("(){}", nl(&self.src[a..b])), "drop-log"),
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                self.ed(a, b, format!("crate::never(){}", nl(&self.src[a..b])), "unreachable")
            }
            "vec" => {
                // visit the arguments so that nested edits apply
                if let Ok(args) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    for e in args.iter() {
                        // spans of re-parsed tokens are the originals
                        let e: &Expr = unsafe { &*(e as *const Expr) };
                        visit_expr_owned(self, e);
                    }
                    let k = args.len();
                    if k <= 3 {
                        let (ta, tb) = match &m.mac.delimiter {
                            MacroDelimiter::Bracket(x) => (br(x.span.open()), br(x.span.close())),
                            MacroDelimiter::Paren(x) => (br(x.span.open()), br(x.span.close())),
                            MacroDelimiter::Brace(x) => (br(x.span.open()), br(x.span.close())),
                        };
                        self.ed(a, ta.1, format!("crate::vec{k}("), "vec");
                        self.ed(tb.0, tb.1, ")".into(), "vec");
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        let n = m.method.to_string();
        if let Expr::Path(p) = &*m.receiver {
            if p.path.is_ident("self") {
                self.calls.insert(n.clone());
            }
        }
        if n == "expected_token_error" && m.args.len() == 2 {
            let (a, b) = br(m.args[1].span());
            self.ed(a, b, format!("&[]{}", nl(&self.src[a..b])), "drop-error-text");
            self.visit_expr(&m.args[0]);
            return;
        }
        // RECV.iter().all(F) / RECV.iter().any(F)
        if (n == "all" || n == "any") && m.args.len() == 1 {
            if let Expr::MethodCall(ii) = &*m.receiver {
                if ii.method == "iter" && ii.args.is_empty() {
                    let k = self.nloop;
                    self.nloop += 1;
                    let (_, we) = br(m.span());
                    let (rs, _) = br(ii.receiver.span());
                    let (_, ie) = br(ii.span());
                    let (fs, fe) = br(m.args[0].span());
                    let (init, neg) = if n == "all" { ("true", "!") } else { ("false", "") };
                    self.ins(rs, format!("{{ let mut __out{k} = {init}; /*@PRE{k}@*/ for __p{k} in __it{k}: "), "iter-all", 2);
                    match &m.args[0] {
                        Expr::Closure(c) if c.inputs.len() == 1 => {
                            let pat = self.t(c.inputs[0].span()).to_string();
                            let (bs, be) = br(c.body.span());
                            self.ed(ie, bs, format!(" /*@INV{k}@*/ {{ /*@TOP{k}@*/ let __v{k} = {{ let {pat} = __p{k}; {}", nl(&self.src[ie..bs])), "iter-all");
                            self.ed(be, we, format!(" }}; if {neg}__v{k} {{ __out{k} = {}; }} /*@BOT{k}@*/ }} /*@POST{k}@*/ __out{k} }}{}", n != "all", nl(&self.src[be..we])), "iter-all");
                            self.visit_expr(&c.body);
                        }
                        _ => {
                            self.ed(ie, fs, format!(" /*@INV{k}@*/ {{ /*@TOP{k}@*/ let __v{k} = {}", nl(&self.src[ie..fs])), "iter-all");
                            self.ed(fe, we, format!("(__p{k}); if {neg}__v{k} {{ __out{k} = {}; }} /*@BOT{k}@*/ }} /*@POST{k}@*/ __out{k} }}{}", n != "all", nl(&self.src[fe..we])), "iter-all");
                        }
                    }
                    self.loops.push(json!({"k": k, "kind": n.clone(), "line": m.span().start().line, "cond": "",
                        "push": [], "assign": [format!("__out{k}")], "parses": false, "it": format!("__it{k}"), "src": format!("__it{k}"), "recv": self.t(ii.receiver.span())}));
                    self.visit_expr(&ii.receiver);
                    return;
                }
            }
        }
        // RECV.chars().filter_map(|c| BODY).collect()
        if n == "collect" && m.args.is_empty() {
            if let Expr::MethodCall(mm) = &*m.receiver {
                if mm.method == "filter_map" && mm.args.len() == 1 {
                    if let (Expr::MethodCall(ii), Expr::Closure(c)) = (&*mm.receiver, &mm.args[0]) {
                        if ii.method == "chars" && ii.args.is_empty() && c.inputs.len() == 1 && !has_return(&c.body) {
                            let k = self.nloop;
                            self.nloop += 1;
                            let (_, we) = br(m.span());
                            let (rs, re) = br(ii.receiver.span());
                            let pat = self.t(c.inputs[0].span()).to_string();
                            let (bs, be) = br(c.body.span());
                            self.ins(rs, format!("{{ let mut __out{k} = Vec::new(); /*@PRE{k}@*/ let __src{k} = crate::chars(&"), "filter-map", 2);
                            self.ed(re, bs, format!("); for __p{k} in __it{k}: __src{k} /*@INV{k}@*/ {{ /*@TOP{k}@*/ let __v{k} = {{ let {pat} = __p{k}; {}", nl(&self.src[re..bs])), "filter-map");
                            self.ed(be, we, format!(" }}; if let Some(__w{k}) = __v{k} {{ __out{k}.push(__w{k}); }} /*@BOT{k}@*/ }} /*@POST{k}@*/ __out{k} }}{}", nl(&self.src[be..we])), "filter-map");
                            self.loops.push(json!({"k": k, "kind": "chars", "line": m.span().start().line, "cond": "",
                                "push": [format!("__out{k}")], "assign": [], "parses": false, "pat": pat,
                                "src": format!("__src{k}"), "it": format!("__it{k}"), "recv": self.t(ii.receiver.span())}));
                            self.visit_expr(&ii.receiver);
                            self.visit_expr(&c.body);
                            return;
                        }
                    }
                }
            }
        }
        // TEXT[E..].starts_with(C)
        if n == "starts_with" && m.args.len() == 1 {
            if let Expr::Index(ix) = &*m.receiver {
                if let Expr::Range(rg) = &*ix.index {
                    if let (Some(st), None) = (&rg.start, &rg.end) {
                        let (ws, we) = br(m.span());
                        let (bs, be) = br(ix.expr.span());
                        let (ss, se) = br(st.span());
                        let (cs, ce) = br(m.args[0].span());
                        self.ed(ws, bs, "crate::starts_at(&".into(), "starts-at");
                        self.ed(be, ss, ", ".into(), "starts-at");
                        self.ed(se, cs, ", ".into(), "starts-at");
                        self.ed(ce, we, ")".into(), "starts-at");
                        self.visit_expr(&ix.expr);
                        self.visit_expr(st);
                        return;
                    }
                }
            }
        }
        // TEXT.len() of a &str parameter
        if n == "len" && m.args.is_empty() {
            let (ws, we) = br(m.span());
            let r = self.t(m.receiver.span()).to_string();
            if self.str_params.contains(&r) {
                self.ed(ws, we, format!("crate::str_len(&{r})"), "str-len");
                return;
            }
        }
        // C.len_utf8()
        if n == "len_utf8" && m.args.is_empty() {
            let (ws, we) = br(m.span());
            let (rs, re) = br(m.receiver.span());
            if ws == rs {
                self.ins(ws, "crate::len_utf8(".into(), "len-utf8", 1);
            }
            self.ed(re, we, ")".into(), "len-utf8");
            self.visit_expr(&m.receiver);
            return;
        }
        // the text of an error message: SLICE.iter()... .join(SEP)
        if n == "join" && m.args.len() == 1 {
            let (ws, we) = br(m.span());
            self.ed(ws, we, format!("crate::fmt_any(){}", nl(&self.src[ws..we])), "drop-error-text");
            return;
        }
        // RECV.into_iter().map(|p| BODY).collect()
        if n == "collect" && m.args.is_empty() {
            if let Expr::MethodCall(mm) = &*m.receiver {
                if mm.method == "map" && mm.args.len() == 1 {
                    if let (Expr::MethodCall(ii), Expr::Closure(c)) = (&*mm.receiver, &mm.args[0]) {
                        if ii.method == "into_iter" && ii.args.is_empty() && c.inputs.len() == 1 {
                            let k = self.nloop;
                            self.nloop += 1;
                            let (ws, we) = br(m.span());
                            let (rs, re) = br(ii.receiver.span());
                            let pat = self.t(c.inputs[0].span()).to_string();
                            let (bs, be) = br(c.body.span());
                            let _ = ws;
                            self.ins(rs, format!("{{ let mut __out{k} = Vec::new(); /*@PRE{k}@*/ let __src{k} = "), "map-collect", 2);
                            self.ed(re, bs, format!("; for {pat} in __it{k}: __src{k} /*@INV{k}@*/ {{ /*@TOP{k}@*/ let __v{k} = {}", nl(&self.src[re..bs])), "map-collect");
                            self.ed(be, we, format!("; __out{k}.push(__v{k}); /*@BOT{k}@*/ }} /*@POST{k}@*/ __out{k} }}{}", nl(&self.src[be..we])), "map-collect");
                            self.loops.push(json!({"k": k, "kind": "map", "line": m.span().start().line, "cond": "",
                                "push": [format!("__out{k}")], "assign": [], "parses": false, "pat": pat,
                                "src": format!("__src{k}"), "it": format!("__it{k}"), "recv": self.t(ii.receiver.span())}));
                            self.visit_expr(&ii.receiver);
                            self.closure_ret.push(format!("__out{k}"));
                            self.in_closure_desugar += 1;
                            self.visit_expr(&c.body);
                            self.in_closure_desugar -= 1;
                            self.closure_ret.pop();
                            return;
                        }
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_return(&mut self, r: &'b ExprReturn) {
        if let Some(o) = self.closure_ret.last().cloned() {
            let (a, b) = br(r.span());
            if let Some(e) = &r.expr {
                let (es, ee) = br(e.span());
                self.ed(a, es, format!("{{ {o}.push("), "map-collect-return");
                self.ed(ee, b, "); continue; }".into(), "map-collect-return");
                self.visit_expr(e);
            }
            return;
        }
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_closure(&mut self, c: &'b ExprClosure) {
        visit::visit_expr_closure(self, c)
    }
    fn visit_expr_binary(&mut self, b: &'b ExprBinary) {
        let neg = matches!(b.op, BinOp::Ne(_));
        if matches!(b.op, BinOp::Eq(_)) || neg {
            let (l, r) = (&*b.left, &*b.right);
            let (l, r) = if self.is_str_like(l) && !self.is_str_like(r) { (r, l) } else { (l, r) };
            if self.is_str_like(r) {
                let (ls, le) = br(b.left.span());
                let (rs, re) = br(b.right.span());
                if std::ptr::eq(l, &*b.left) {
                    self.ins(ls, if neg { "!(".into() } else { "(".into() }, "str-eq", 1);
                    self.ed(le, rs, ").str_eq(".into(), "str-eq");
                    self.ins(re, ")".into(), "str-eq", 0);
                } else {
                    // literal on the left: swap is not a byte edit, use function form
                    self.ins(ls, if neg { "!crate::str_eq2(".into() } else { "crate::str_eq2(".into() }, "str-eq", 1);
                    self.ed(le, rs, ", &".into(), "str-eq");
                    self.ins(re, ")".into(), "str-eq", 0);
                }
                self.visit_expr(&b.left);
                self.visit_expr(&b.right);
                return;
            }
        }
        visit::visit_expr_binary(self, b)
    }
    fn visit_expr_reference(&mut self, r: &'b ExprReference) {
        if let Expr::Index(ix) = &*r.expr {
            if let Expr::Range(rg) = &*ix.index {
                let (a, _) = br(r.span());
                self.index_range(a, ix, rg);
                return;
            }
        }
        visit::visit_expr_reference(self, r)
    }
    fn visit_expr_index(&mut self, ix: &'b ExprIndex) {
        if let Expr::Range(rg) = &*ix.index {
            let (a, _) = br(ix.span());
            self.index_range(a, ix, rg);
            return;
        }
        visit::visit_expr_index(self, ix)
    }
    fn visit_expr_call(&mut self, c: &'b ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let t = self.t(p.span());
            if t == "String::from" {
                let (a, b) = br(p.span());
                self.ed(a, b, "crate::string_from".into(), "string-from");
            }
            if let Some(s) = p.path.segments.first() {
                if s.ident == "Self" {
                    self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
                }
            }
        }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_while(&mut self, w: &'b ExprWhile) {
        let cond = self.t(w.cond.span()).to_string();
        self.do_loop("while", w.span(), &w.body, w.cond.span(), &cond);
        visit::visit_expr_while(self, w)
    }
    fn visit_expr_loop(&mut self, w: &'b ExprLoop) {
        self.do_loop("loop", w.span(), &w.body, w.loop_token.span(), "");
        visit::visit_expr_loop(self, w)
    }
    fn visit_expr_for_loop(&mut self, w: &'b ExprForLoop) {
        let k = self.nloop;
        let cond = self.t(w.expr.span()).to_string();
        // `for p in E` => `let __srcK = E; for p in __itK: __srcK`
        let (ws, _) = br(w.span());
        let (es, ee) = br(w.expr.span());
        self.do_loop("for", w.span(), &w.body, w.expr.span(), &cond);
        let _ = ws;
        if cond.ends_with(".iter()") || cond.contains("..") {
            self.ins(es, format!("__it{k}: "), "for-ghost-iter", 3);
        } else {
            self.ins(es, format!("__it{k}: "), "for-ghost-iter", 3);
        }
        let _ = ee;
        visit::visit_expr_for_loop(self, w)
    }
    fn visit_arm(&mut self, a: &'b Arm) {
        // strip `&` patterns: default binding modes give the same bindings; by-value bindings get `let x = *x;`
        struct R<'q> {
            amps: Vec<(usize, usize)>,
            binds: Vec<String>,
            depth: usize,
            _p: std::marker::PhantomData<&'q ()>,
        }
        impl<'q, 'c> Visit<'c> for R<'q> {
            fn visit_pat_reference(&mut self, p: &'c PatReference) {
                let (x, y) = br(p.and_token.span());
                self.amps.push((x, y));
                self.depth += 1;
                visit::visit_pat_reference(self, p);
                self.depth -= 1;
            }
            fn visit_pat_ident(&mut self, p: &'c PatIdent) {
                if self.depth > 0 && p.by_ref.is_none() && p.ident.to_string().chars().next().unwrap().is_lowercase() {
                    self.binds.push(p.ident.to_string());
                }
                visit::visit_pat_ident(self, p)
            }
        }
        let mut r = R { amps: vec![], binds: vec![], depth: 0, _p: Default::default() };
        r.visit_pat(&a.pat);
        for (x, y) in r.amps {
            self.ed(x, y, "".into(), "amp-pattern");
        }
        if !r.binds.is_empty() {
            let (bs, be) = br(a.body.span());
            let lets: String = r.binds.iter().map(|b| format!("let {b} = *{b}; ")).collect();
            self.ins(bs, format!("{{ {lets}"), "amp-pattern", 2);
            self.ins(be, " }".into(), "amp-pattern", 0);
        }
        visit::visit_arm(self, a)
    }
}

fn has_return(e: &Expr) -> bool {
    struct R(bool);
    impl<'c> Visit<'c> for R {
        fn visit_expr_return(&mut self, _: &'c ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'c ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'c ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_expr(e);
    r.0
}

fn visit_expr_owned(v: &mut V, e: &Expr) {
    v.visit_expr(e)
}

impl<'a> V<'a> {
    fn index_range<'b>(&mut self, start: usize, ix: &'b ExprIndex, rg: &'b ExprRange) {
        let (bs, be) = br(ix.expr.span());
        let (_, we) = br(ix.span());
        let f = if self.slice_mode { "crate::lsl" } else { "crate::sl" };
        self.ed(start, bs, format!("{f}(&"), "range-index");
        match (&rg.start, &rg.end) {
            (Some(s), Some(e)) => {
                let (ss, se) = br(s.span());
                let (es, ee) = br(e.span());
                self.ed(be, ss, ", ".into(), "range-index");
                self.ed(se, es, ", ".into(), "range-index");
                self.ed(ee, we, ")".into(), "range-index");
                self.visit_expr(s);
                self.visit_expr(e);
            }
            (Some(s), None) => {
                let (ss, se) = br(s.span());
                self.eds.last_mut().unwrap().text = format!("{f}_from(&");
                self.ed(be, ss, ", ".into(), "range-index");
                self.ed(se, we, ")".into(), "range-index");
                self.visit_expr(s);
            }
            (None, Some(e)) => {
                let (es, ee) = br(e.span());
                self.eds.last_mut().unwrap().text = format!("{f}_to(&");
                self.ed(be, es, ", ".into(), "range-index");
                self.ed(ee, we, ")".into(), "range-index");
                self.visit_expr(e);
            }
            _ => {}
        }
        self.visit_expr(&ix.expr);
    }
}

fn apply(src: &str, lo: usize, hi: usize, eds: &mut Vec<Ed>) -> String {
    eds.sort_by(|a, b| (a.start, a.end != a.start, -a.prio, a.end).cmp(&(b.start, b.end != b.start, -b.prio, b.end)));
    let mut out = String::new();
    let mut pos = lo;
    for e in eds.iter() {
        if e.start < lo || e.end > hi {
            continue;
        }
        if e.start < pos {
            // nested inside an already replaced region
            continue;
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..hi]);
    out
}

fn fn_json(src: &str, owner: &str, trait_: Option<String>, sig: &Signature, vis: &str, block: &Block, attrs: &[Attribute]) -> Value {
    let mut v = V {
        src,
        eds: vec![],
        loops: vec![],
        nloop: 0,
        calls: BTreeSet::new(),
        str_params: BTreeSet::new(),
        slice_mode: sig.ident == "get_item_position" || sig.ident == "search",
        ntmp: 0,
        names: BTreeSet::new(),
        closure_ret: vec![],
        in_closure_desugar: 0,
    };
    let _ = v.ntmp;
    let mut params = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => params.push(json!({"name": "self", "ty": src[br(r.span()).0..br(r.span()).1].to_string()})),
            FnArg::Typed(t) => {
                let ty = &src[br(t.ty.span()).0..br(t.ty.span()).1];
                let name = &src[br(t.pat.span()).0..br(t.pat.span()).1];
                if ty == "&str" {
                    v.str_params.insert(name.to_string());
                }
                params.push(json!({"name": name, "ty": ty}))
            }
        }
    }
    v.visit_block(block);
    let (bs, be) = br(block.span());
    let mut rules: std::collections::BTreeMap<&str, usize> = Default::default();
    for e in &v.eds {
        *rules.entry(e.rule).or_default() += 1;
    }
    let body = apply(src, bs, be, &mut v.eds);
    let ret = match &sig.output {
        ReturnType::Default => "".to_string(),
        ReturnType::Type(_, t) => src[br(t.span()).0..br(t.span()).1].to_string(),
    };
    let generics = if sig.generics.params.is_empty() {
        "".to_string()
    } else {
        let (a, b) = br(sig.generics.span());
        src[a..b].to_string()
    };
    let wher = sig.generics.where_clause.as_ref().map(|w| src[br(w.span()).0..br(w.span()).1].to_string()).unwrap_or_default();
    let cfg_test = attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test"));
    json!({"name": sig.ident.to_string(), "owner": owner, "trait": trait_, "vis": vis, "generics": generics, "where": wher,
        "params": params, "ret": ret, "body": body, "orig": &src[bs..be], "line": sig.span().start().line, "end_line": block.span().end().line,
        "body_line": block.span().start().line,
        "loops": v.loops, "calls": v.calls, "rules": rules, "names": v.names, "cfg_test": cfg_test})
}

fn main() {
    let path = std::env::args().nth(1).expect("file");
    let src = std::fs::read_to_string(&path).expect("read");
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            println!("{}", json!({"error": e.to_string()}));
            std::process::exit(3);
        }
    };
    let mut fns = vec![];
    let mut items = vec![];
    for it in &file.items {
        do_item(&src, it, "", &mut fns, &mut items);
    }
    println!("{}", json!({"fns": fns, "items": items}));
}

fn strip_attrs_text(src: &str, it: &Item) -> String {
    // remove attributes and docs inside the item (fields / variants), keep the rest verbatim
    struct A(Vec<(usize, usize)>);
    impl<'b> Visit<'b> for A {
        fn visit_attribute(&mut self, a: &'b Attribute) {
            self.0.push(br(a.span()));
        }
    }
    let mut a = A(vec![]);
    a.visit_item(it);
    let (lo, hi) = br(it.span());
    let mut v: Vec<Ed> = a.0.iter().map(|(x, y)| Ed { start: *x, end: *y, text: "".into(), rule: "attr", prio: 0 }).collect();
    apply(src, lo, hi, &mut v)
}

fn do_item(src: &str, it: &Item, module: &str, fns: &mut Vec<Value>, items: &mut Vec<Value>) {
    let vis = |v: &Visibility| src[br(v.span()).0..br(v.span()).1].to_string();
    let vis = |v: &Visibility| if matches!(v, Visibility::Inherited) { String::new() } else { vis(v) };
    let cfg = |a: &[Attribute]| a.iter().any(|x| x.path().is_ident("cfg"));
    match it {
        Item::Fn(f) => {
            if !cfg(&f.attrs) {
                fns.push(fn_json(src, module, None, &f.sig, &vis(&f.vis), &f.block, &f.attrs))
            }
        }
        Item::Impl(im) => {
            if cfg(&im.attrs) {
                return;
            }
            let owner = src[br(im.self_ty.span()).0..br(im.self_ty.span()).1].to_string();
            let tr = im.trait_.as_ref().map(|(_, p, _)| src[br(p.span()).0..br(p.span()).1].to_string());
            let mut names = vec![];
            for x in &im.items {
                if let ImplItem::Fn(f) = x {
                    names.push(f.sig.ident.to_string());
                    fns.push(fn_json(src, &owner, tr.clone(), &f.sig, &vis(&f.vis), &f.block, &f.attrs));
                }
            }
            items.push(json!({"kind": "impl", "owner": owner, "trait": tr, "fns": names}));
        }
        Item::Struct(s) => items.push(json!({"kind": "struct", "name": s.ident.to_string(), "text": strip_attrs_text(src, it), "line": s.span().start().line})),
        Item::Enum(s) => items.push(json!({"kind": "enum", "name": s.ident.to_string(), "text": strip_attrs_text(src, it), "line": s.span().start().line})),
        Item::Type(s) => items.push(json!({"kind": "type", "name": s.ident.to_string(), "text": strip_attrs_text(src, it), "line": s.span().start().line})),
        Item::Trait(s) => items.push(json!({"kind": "trait", "name": s.ident.to_string(), "text": strip_attrs_text(src, it)})),
        Item::Use(_) => items.push(json!({"kind": "use", "text": strip_attrs_text(src, it)})),
        Item::Const(c) => items.push(json!({"kind": "const", "name": c.ident.to_string(), "text": strip_attrs_text(src, it)})),
        Item::Mod(m) => {
            if cfg(&m.attrs) {
                return;
            }
            items.push(json!({"kind": "mod", "name": m.ident.to_string()}));
            if let Some((_, its)) = &m.content {
                for i in its {
                    do_item(src, i, &m.ident.to_string(), fns, items);
                }
            }
        }
        _ => {}
    }
}
