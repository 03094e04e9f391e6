//! Bounded battery: generated programs with their expected trees, planted violations, token soup.
mod gen;
mod scope;
mod trip;
use gen::*;
use std::io::Write;
use std::sync::{atomic::{AtomicU64, Ordering}, Arc, Mutex};

#[derive(Clone, Debug)]
struct Case { kind: &'static str, module: bool, tolerant: bool, src: String, expect: String, note: String }

// ---- printing ----
struct Printed { src: String, starts: Vec<(usize, usize)>, comments: Vec<(usize, usize)> }
#[derive(Clone, Copy)]
struct Style { nl: u64, asi: u64, comment: u64, exotic: u64 }
fn safe_next(t: &Tok) -> bool {
    match t.k {
        K::Word => !["in", "instanceof", "of", "as", "from"].contains(&t.s.as_str()),
        K::Num | K::Str => true,
        K::Punct => ["{", "!", "~", "++", "--"].contains(&t.s.as_str()),
        _ => false,
    }
}
fn newline(r: &mut Rng, st: &Style) -> &'static str { if r.p(st.exotic) { ["\r\n", "\r", "\u{2028}", "\u{2029}"][r.n(4)] } else { "\n" } }
fn print(toks: &[Tok], r: &mut Rng, st: &Style) -> Printed {
    let mut s = String::new();
    let mut starts = vec![];
    let mut comments = vec![];
    let mut force = false;
    let mut prev: Option<&Tok> = None;
    let n = toks.len();
    let mut i = 0;
    while i <= n {
        let mut cur: Option<Tok> = toks.get(i).cloned();
        if let Some(ref t) = cur {
            if t.k == K::Semi || t.k == K::DoSemi {
                let nx = toks[i + 1..].iter().find(|x| x.k != K::Semi && x.k != K::DoSemi || true);
                let omit = match nx {
                    None => r.p(st.asi.max(30)),
                    Some(x) if x.k == K::Punct && x.s == "}" => r.p(st.asi.max(30)),
                    Some(x) if x.k == K::Tmpl => false,
                    Some(x) if t.k == K::DoSemi => !(x.k == K::Punct && x.s == ";") && safe_next(x) && r.p(st.asi),
                    Some(x) if safe_next(x) && !x.nonl => { let o = r.p(st.asi); if o { force = true; } o }
                    _ => false,
                };
                if omit { i += 1; continue; }
                cur = Some(Tok { s: ";".into(), k: K::Punct, nonl: false, forcenl: false });
            }
        }
        let nonl = cur.as_ref().map(|t| t.nonl).unwrap_or(false);
        // separator
        let mut sep = String::new();
        let mut wrote_nl = false;
        let regexy = cur.as_ref().map(|t| t.k == K::Regex || t.s.starts_with('/')).unwrap_or(false);
        if let (Some(p), Some(c)) = (prev, cur.as_ref()) {
            let w = |t: &Tok| matches!(t.k, K::Word | K::Num | K::Str | K::Regex);
            let need = (w(p) && w(c)) || (p.k == K::Punct && c.k == K::Punct && !["(", ")", "[", "]", "{", "}", ",", ";"].contains(&p.s.as_str()) && !["(", ")", "[", "]", "{", "}", ",", ";"].contains(&c.s.as_str()))
                || (p.k == K::Num && c.s.starts_with('.')) || (p.s.ends_with('.') && c.k == K::Num) || p.k == K::Regex || regexy;
            if need || r.p(40) { sep.push_str([" ", " ", "  ", "\t", "\u{a0}"][r.n(if st.exotic > 0 { 5 } else { 3 })]); }
        }
        if force || cur.as_ref().map(|t| t.forcenl).unwrap_or(false) || (!nonl && i > 0 && r.p(st.nl)) { sep.push_str(newline(r, st)); wrote_nl = true; }
        if st.comment > 0 && !regexy {
            if s.ends_with('/') && sep.is_empty() { sep.push(' '); }
            while r.p(st.comment) {
                let k = r.n(6);
                let at = s.len() + sep.len();
                if k < 3 {
                    let padded = r.p(30);
                    sep.push_str(if padded { ["/* c \t*/", "/*\té*/", "/*  */"][k] } else { ["/*c*/", "/* é ** / */", "/**/"][k] }); comments.push((at, s.len() + sep.len())); }
                else if !nonl || wrote_nl || force {
                    let keep = wrote_nl || force;
                    // a comment holding a line terminator is a line terminator
                    if !keep && !cur.as_ref().map(|t| !t.nonl).unwrap_or(true) { continue; }
                    if k == 3 { sep.push_str(&format!("/* a{}b */", newline(r, st))); comments.push((at, s.len() + sep.len())); wrote_nl = true; }
                    else { sep.push_str(["// x y", "// x y  ", "//\tz\t", "//"][r.n(4)]); comments.push((at, s.len() + sep.len())); sep.push_str(newline(r, st)); wrote_nl = true; }
                }
            }
        }
        force = false;
        s.push_str(&sep);
        if let Some(c) = cur {
            starts.push((s.len(), s.len() + c.s.len()));
            s.push_str(&c.s);
            prev = toks.get(i);
        } else { break; }
        i += 1;
    }
    starts.push((s.len(), s.len()));
    Printed { src: s, starts, comments }
}
/// 1-based line and byte column of an offset
fn linecol(src: &str, at: usize) -> (usize, usize) {
    let (mut line, mut start) = (1, 0);
    let mut it = src.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if i >= at { break; }
        let mut end = i + c.len_utf8();
        match c {
            '\r' => { if let Some(&(j, '\n')) = it.peek() { if j >= at { break; } it.next(); end = j + 1; } }
            '\n' | '\u{2028}' | '\u{2029}' => (),
            _ => continue,
        }
        line += 1;
        start = end;
    }
    (line, at - start)
}

// ---- evaluation ----
fn builder(c: &Case) -> ressa::Builder {
    let mut b = ressa::Builder::new();
    b.set_module(c.module);
    b.set_tolerant(c.tolerant);
    b.set_js(c.src.as_str());
    b
}
fn parse(c: &Case) -> Result<resast::Program, ressa::Error> { builder(c).build()?.parse() }
fn short(s: &str) -> String { s.chars().take(1500).collect() }
fn position(e: &ressa::Error) -> Option<String> {
    use ressa::Error::*;
    let p = match e { UnexpectedToken(p, _) | UnableToReinterpret(p, _, _) | Redecl(p, _) | OperationError(p, _) | InvalidGetterParams(p) | InvalidSetterParams(p) | NonStrictFeatureInStrictContext(p, _) => p, _ => return None };
    Some(format!("{}:{}", p.line, p.column))
}
fn eval(c: &Case) -> Result<(), String> {
    match c.kind {
        "ast" => match parse(c) {
            Ok(p) => { let g = format!("{:?}", p); if g == c.expect { Ok(()) } else { Err(format!("tree differs\n  expected {}\n  found    {}", short(&c.expect), short(&g))) } }
            Err(e) => Err(format!("rejected: {}", e)),
        },
        "reject" => match parse(c) { Err(_) => Ok(()), Ok(p) => Err(format!("accepted ({}): {}", c.note, short(&format!("{:?}", p)))) },
        "accept" => parse(c).map(|_| ()).map_err(|e| format!("rejected: {}", e)),
        // whatever is accepted is read token by token into the tree
        "trip" => match parse(c) {
            Ok(p) => { let (g, w) = (trip::text(&p), trip::canon(&c.src)); if g == w { Ok(()) } else { Err(format!("the tree does not hold the tokens of the source\n  source {}\n  tree   {}\n  {}", short(&w), short(&g), short(&format!("{:?}", p)))) } }
            Err(_) => Ok(()),
        },
        "safe" => {
            if let Ok(mut p) = builder(c).build() { let mut k = 0; loop { match p.next() { Some(_) => k += 1, None => break } if k > c.src.len() + 2 { return Err("more items than bytes".into()); } } for _ in 0..3 { if p.next().is_some() { return Err("an item after the end".into()); } } }
            let _ = parse(c);
            Ok(())
        }
        "comments" => {
            let got = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
            let g2 = got.clone();
            let res = match builder(c).with_comment_handler(move |i: ress::Item| g2.borrow_mut().push((i.span.start, i.span.end, match &i.token { ress::Token::Comment(c) => format!("{:?} {:?}{}", c.kind, c.content, if c.tail_content.is_some() { " tail" } else { "" }), _ => "not a comment".to_string() }))) { Ok(mut p) => p.parse().map(|_| ()).map_err(|e| format!("{}", e)), Err(e) => Err(format!("{}", e)) };
            if let Err(e) = res { return Err(format!("rejected: {}", e)); }
            let g = format!("{:?}", got.borrow());
            if g == c.expect { Ok(()) } else { Err(format!("comments handed over\n  expected {}\n  found    {}", short(&c.expect), short(&g))) }
        }
        "errpos" => match parse(c) {
            Ok(_) => Err("accepted".into()),
            Err(e) => match position(&e) { Some(p) if c.expect.split(' ').any(|x| x == p) => Ok(()), None if c.expect.split(' ').any(|x| x == "none") => Ok(()), p => Err(format!("position {:?} is not in [{}]: {}", p, c.expect, e)) },
        },
        "agree" => {
            let out = |r: Result<resast::Program, ressa::Error>| match r { Ok(p) => format!("{:?}", p), Err(e) => format!("error {}", e) };
            let a = out(parse(c));
            let rest = |name: &str, b: String| if a == b { Ok(()) } else { Err(format!("{} differs\n  parse {}\n  {} {}", name, short(&a), name, short(&b))) };
            rest("handler", out(builder(c).with_comment_handler(|_: ress::Item| ()).and_then(|mut p| p.parse())))?;
            rest("iterator", out((|| { let mut v = vec![]; for p in builder(c).build()? { v.push(p?); } Ok(if c.module { resast::Program::Mod(v) } else { resast::Program::Script(v) }) })()))?;
            rest("chained builder", out((|| { let mut b = ressa::Builder::new(); b.js(c.src.as_str()).module(c.module).tolerant(c.tolerant); b.build()?.parse() })()))?;
            if !c.module && !c.tolerant { rest("Parser::new", out(ressa::Parser::new(&c.src).and_then(|mut p| p.parse())))?; }
            Ok(())
        }
        "api" => {
            let a = parse(c).map_err(|e| format!("rejected: {}", e))?;
            let d = format!("{:?}", a);
            if d != c.expect { return Err(format!("tree differs\n  expected {}\n  found    {}", short(&c.expect), short(&d))); }
            let (parts, is_mod) = match a { resast::Program::Mod(p) => (p, true), resast::Program::Script(p) => (p, false) };
            if is_mod != c.module { return Err("script and module confused".into()); }
            let mut it = builder(c).build().map_err(|e| format!("{}", e))?;
            let mut v = vec![];
            while let Some(p) = it.next() { v.push(p.map_err(|e| format!("iterator: {}", e))?); }
            if v != parts { return Err(format!("iterator gives {:?}, parse gives {:?}", v, parts)); }
            if it.next().is_some() || it.next().is_some() { return Err("an item after the end".into()); }
            let p = builder(c).with_comment_handler(|_: ress::Item| ()).map_err(|e| format!("{}", e))?.parse().map_err(|e| format!("handler: {}", e))?;
            if format!("{:?}", p) != d { return Err("a comment handler changes the tree".into()); }
            if !c.module {
                let p = ressa::Parser::new(&c.src).map_err(|e| format!("{}", e))?.parse().map_err(|e| format!("Parser::new: {}", e))?;
                if format!("{:?}", p) != d { return Err("Parser::new gives another tree".into()); }
            }
            let mut b = ressa::Builder::new();
            b.js(c.src.as_str()).module(c.module).tolerant(c.tolerant);
            let p = b.build().map_err(|e| format!("{}", e))?.parse().map_err(|e| format!("builder: {}", e))?;
            if format!("{:?}", p) != d { return Err("the chained builder gives another tree".into()); }
            // a failure late in the text fails the whole parse, and the items before it are the same
            let bad = Case { src: format!("{}\n;)", c.src), ..c.clone() };
            if parse(&bad).is_ok() { return Err("text after the program is ignored".into()); }
            let mut it = builder(&bad).build().map_err(|e| format!("{}", e))?;
            for (i, p) in parts.iter().enumerate() { match it.next() { Some(Ok(ref q)) if q == p => (), q => return Err(format!("item {} of the prefix: {:?}", i, q.map(|r| r.is_ok()))) } }
            Ok(())
        }
        _ => Err("unknown kind".into()),
    }
}
thread_local!(static LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
fn guarded(c: &Case) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(c)));
    match r {
        Ok(r) => r,
        Err(_) => { let l = LOC.with(|l| l.borrow().clone()); if l.contains("/ress-") || l.contains("/unicode_xid") || l.contains("\\ress-") { Ok(()) } else { Err(format!("panic at {}", l)) } }
    }
}

// ---- areas ----
const E0: Profile = Profile { expr: 0, stmt: 0, def: 0, pat: 0, module: 0, strict: 0, look: 0 };
fn make(area: &str, seed: u64) -> Vec<Case> {
    let mut r = Rng(seed.wrapping_mul(0xD1342543DE82EF95) ^ 0x5bd1e995);
    r.next(); r.next();
    let fuel = 6 + r.n(50) as i32;
    let len = 1 + r.n(4);
    let mut st = Style { nl: 10, asi: 0, comment: 0, exotic: 0 };
    let mut pr = E0;
    let mut module = r.p(20);
    let mut kind = "ast";
    let mut inject: Option<&'static str> = None;
    let neg = |r: &mut Rng, v: &[&'static str]| -> Option<&'static str> { Some(v[r.n(v.len())]) };
    match area {
        "expr" => pr.expr = 1,
        "stmt" => pr.stmt = 1,
        "def" => pr.def = 1,
        "pat" => { pr.pat = 1; if r.p(8) { inject = neg(&mut r, &["pat:word"]); } }
        "module" => { module = true; pr.module = 1; if r.p(20) { inject = Some("mod:bad"); } }
        "asi" => { pr.stmt = 1; if r.p(25) { pr.def = 1; } if r.p(25) { pr.expr = 1; } if r.p(20) { module = true; pr.module = 1; } st.asi = 60; st.exotic = 30; st.nl = 15; st.comment = if r.p(30) { 6 } else { 0 };
            if r.p(35) { inject = neg(&mut r, &["asi:throw", "asi:postfix", "asi:missing", "asi:missing", "asi:arrow"]); if inject == Some("asi:arrow") { pr.pat = 1; } } }
        "early" => { pr.stmt = 1; pr.def = 1; if r.p(30) { pr.pat = 1; }
            if r.p(80) { inject = neg(&mut r, &["early:proto", "early:getter", "early:setter", "early:setrest", "early:ctor", "early:return", "early:break", "early:continue", "early:label-undef", "early:label-outer", "early:label-dup", "early:default", "early:const", "early:destruct", "early:try"]); } }
        "strict" => { pr.strict = 1; pr.def = 1; if r.p(50) { pr.stmt = 1; } if r.p(60) { inject = neg(&mut r, &["strict:param", "strict:binding", "strict:nonsimple", "strict:with", "strict:delete", "strict:assign", "strict:reserved", "strict:fname", "strict:declname", "strict:iffn", "strict:catch", "strict:arrow", "strict:for", "strict:cls"]); if r.p(60) { pr.stmt = 1; } if inject == Some("strict:delete") || inject == Some("strict:reserved") || inject == Some("strict:assign") || inject == Some("strict:arrow") { if r.p(50) { pr.expr = 1; } } } }
        "target" => { pr.expr = 1; pr.pat = 1; if r.p(70) { inject = neg(&mut r, &["target:assign", "target:assign", "target:update", "target:for", "target:params"]); if inject == Some("target:for") { pr.stmt = 1; } } }
        "context" => { pr.def = 1; if r.p(60) { pr.stmt = 1; } if r.p(40) { pr.expr = 1; } if r.p(60) { inject = neg(&mut r, &["ctx:await", "ctx:yield", "ctx:yieldid", "ctx:awaitid", "ctx:newtarget", "ctx:in", "ctx:forawait", "ctx:forawait-out", "early:break", "early:continue", "early:label-outer", "early:label-undef"]); } }
        "comments" => { kind = "comments"; st.comment = 20; st.exotic = 10; pr.look = 1; match r.n(4) { 0 => pr.stmt = 1, 1 => pr.def = 1, 2 => { module = true; pr.module = 1 } _ => { pr.stmt = 1; pr.expr = 1 } } if r.p(30) { kind = "ast"; } }
        "positions" => { kind = "errpos"; st.exotic = 40; st.nl = 25; st.comment = if r.p(40) { 8 } else { 0 }; match r.n(4) { 0 => pr.stmt = 1, 1 => pr.def = 1, 2 => pr.expr = 1, _ => pr.pat = 1 } if r.p(40) { pr.stmt = 1; pr.def = 1; inject = neg(&mut r, &["target:assign", "target:update", "target:for", "early:return", "early:break", "early:continue", "early:label-undef", "early:label-dup", "early:getter", "early:setter", "strict:with", "strict:delete", "strict:assign", "strict:param", "strict:fname", "early:ctor", "early:proto", "early:try", "early:const"]); if inject.unwrap().starts_with("strict") { pr.strict = 1; } } }
        "progress" | "panic" => { kind = "safe"; st.exotic = 10; st.comment = if r.p(20) { 8 } else { 0 }; match r.n(8) { 0 => pr.stmt = 1, 1 => pr.def = 1, 2 => pr.expr = 1, 3 => pr.pat = 1, 4 => { pr.module = 1; module = true } 5 => { pr.stmt = 1; pr.def = 1 } _ => { pr.stmt = 1; pr.def = 1; pr.expr = 1; pr.pat = 1; pr.strict = 1; pr.look = 1; } } }
        "look" => { pr.look = 1; st.comment = 15; st.nl = 8; st.exotic = 15; match r.n(3) { 0 => pr.stmt = 1, 1 => { pr.module = 1; module = true } _ => pr.def = 1 } }
        "program" => { kind = "api"; st.comment = 4; st.exotic = 10; match r.n(4) { 0 => pr.stmt = 1, 1 => pr.def = 1, 2 => { module = true; pr.module = 1 } _ => pr.expr = 1 }
            if r.p(40) { kind = "agree"; pr.stmt = 1; pr.def = 1; inject = neg(&mut r, &["strict:with", "strict:with", "strict:delete", "strict:assign", "strict:param", "early:return", "early:getter", "early:try", "early:const", "early:proto", "target:assign", "target:update", "asi:missing"]); } }
        _ => panic!("unknown area"),
    }
    if kind == "ast" && r.p(3) {
        // forms that are an error wherever they stand, after a complete program
        let v: Vec<&str> = include_str!("bad.txt").lines().filter_map(|l| l.split_once(' ')).filter(|l| l.0.trim_end_matches('!') == area).map(|l| l.1).collect();
        if !v.is_empty() {
            let text = v[r.n(v.len())];
            let mut g = G::new(seed ^ 0xabcdef, fuel, pr);
            if r.p(50) { g.program(module, len); g.t(";"); } else { g.out.clear(); }
            g.frag(text);
            let p = print(&g.out, &mut r, &Style { nl: 0, asi: 0, comment: 0, exotic: 0 });
            return vec![Case { kind: "reject", module, tolerant: false, src: p.src, expect: String::new(), note: text.to_string() }];
        }
    }
    let topics: &[usize] = match area { "strict" => &[0], "context" => &[1, 2, 4], "early" => &[3, 4, 5], "panic" => &[0, 1, 2, 3, 4, 5], _ => &[] };
    if !topics.is_empty() && r.p(if kind == "safe" { 10 } else { 25 }) {
        let topic = topics[r.n(topics.len())];
        let bad = r.p(50);
        let module = topic != 0 && module;
        let (text, planted) = scope::Scope::program(Rng(r.next() | 1), module, bad, topic);
        let mut g = G::new(seed, 1, E0);
        g.frag(&text);
        let p = print(&g.out, &mut r, &st);
        let k = if kind == "safe" { "safe" } else if planted.is_some() { "reject" } else { "accept" };
        return vec![Case { kind: k, module, tolerant: false, src: p.src, expect: String::new(), note: planted.unwrap_or_default() }];
    }
    if kind == "safe" && r.p(15) { inject = neg(&mut r, &["early:setter", "early:setrest", "early:getter", "early:ctor", "early:proto", "early:default", "early:label-dup", "early:try", "early:const", "early:destruct", "target:assign", "target:params", "target:for", "target:update", "strict:param", "strict:nonsimple", "strict:arrow", "mod:bad"]); if inject == Some("mod:bad") { module = true; pr.module = 1; } }
    let len = if kind == "api" && r.p(4) { 0 } else { len };
    let mut g = G::new(seed ^ 0xabcdef, fuel, pr);
    g.inject = inject;
    let prog = if area == "look" { look_program(&mut g, module, len) } else { g.program(module, len) };
    if inject.is_some() && g.injected.is_none() { if area == "positions" { return vec![]; } g.inject = None; inject = None; }
    let mut toks = std::mem::take(&mut g.out);
    let mut cases = vec![];
    let mk = |kind, src: String, expect: String, note: String| Case { kind, module, tolerant: false, src, expect, note };
    if kind == "safe" {
        match r.n(5) {
            0 => (),
            1 => { let mut v: Vec<Tok> = vec![]; for _ in 0..1 + r.n(25) { v.push(soup(&mut r, &toks)); } toks = v; }
            2 => { let n = r.n(toks.len() + 1); toks.truncate(n); }
            _ => mutate(&mut r, &mut toks)
        }
        let p = print(&toks, &mut r, &st);
        let tolerant = r.p(30);
        let mut src = p.src;
        if r.p(6) && !src.is_empty() { let mut k = r.n(src.len()); while !src.is_char_boundary(k) { k -= 1; } src.truncate(k); }
        cases.push(Case { kind, module, tolerant, src, expect: String::new(), note: String::new() });
        return cases;
    }
    if kind == "errpos" && inject.is_none() {
        // a token no statement can start with, after a complete program
        let bad = r.pick(&[")", "]", ",", "=>", "else", "case", "in", ":", "?", ".", "=", "*=", "finally", "}"]).to_string();
        toks.push(Tok { s: ";".into(), k: K::Punct, nonl: false, forcenl: false });
        toks.push(Tok { s: bad, k: K::Punct, nonl: false, forcenl: r.p(50) });
        let p = print(&toks, &mut r, &st);
        let (l, c) = linecol(&p.src, p.starts[p.starts.len() - 2].0);
        cases.push(mk("errpos", p.src, format!("{}:{}", l, c), String::new()));
        return cases;
    }
    if kind == "ast" && inject.is_none() && ["expr", "stmt", "def", "pat", "module"].contains(&area) && r.p(35) {
        mutate(&mut r, &mut toks);
        let p = print(&toks, &mut r, &st);
        let bad = hopeless(&p, &toks);
        return vec![mk(if bad.is_empty() { "trip" } else { "reject" }, p.src, String::new(), bad.to_string())];
    }
    let p = print(&toks, &mut r, &st);
    if kind == "errpos" {
        let v: Vec<String> = p.starts.iter().map(|s| { let (l, c) = linecol(&p.src, s.0); format!("{}:{}", l, c) }).collect();
        cases.push(mk("errpos", p.src, v.join(" ") + " none", g.injected.clone().unwrap_or_default()));
        return cases;
    }
    if kind == "agree" { let tolerant = r.p(50); cases.push(Case { tolerant, ..mk(kind, p.src, String::new(), g.injected.clone().unwrap_or_default()) }); return cases; }
    if inject.is_some() { cases.push(mk("reject", p.src, String::new(), g.injected.clone().unwrap_or_default())); return cases; }
    if kind == "comments" {
        let v: Vec<(usize, usize, String)> = p.comments.iter().map(|c| (c.0, c.1, { let t = &p.src[c.0..c.1]; format!("{} {:?}", if t.starts_with("/*") { "Multi" } else { "Single" }, t) })).collect();
        cases.push(mk("comments", p.src, format!("{:?}", v), String::new()));
        return cases;
    }
    cases.push(mk(kind, p.src, format!("{:?}", prog), String::new()));
    cases
}
/// no program has unbalanced brackets, or two operands side by side on one line
fn hopeless(p: &Printed, toks: &[Tok]) -> &'static str {
    if toks.iter().any(|t| t.k == K::Tmpl || t.k == K::Regex || t.s.starts_with('/')) { return ""; }
    let mut open = vec![];
    for t in toks.iter().filter(|t| t.k == K::Punct) {
        match t.s.as_str() {
            "(" => open.push(")"), "[" => open.push("]"), "{" => open.push("}"),
            ")" | "]" | "}" => if open.pop() != Some(t.s.as_str()) { return "unbalanced brackets"; },
            _ => (),
        }
    }
    if !open.is_empty() { return "unbalanced brackets"; }
    let operand = |s: &str| { let c = s.chars().next().unwrap_or(' '); c.is_ascii_digit() || c == '\'' || c == '"' || (c == '.' && s.len() > 1 && s != "...") || ["a", "b", "c", "foo", "x1", "_y", "$z", "w", "k", "p", "q"].contains(&s) };
    for v in p.starts.windows(2) {
        let gap = &p.src[v[0].1..v[1].0];
        if operand(&p.src[v[0].0..v[0].1]) && operand(&p.src[v[1].0..v[1].1]) && !gap.chars().any(|c| "\n\r\u{2028}\u{2029}".contains(c)) { return "two operands side by side"; }
    }
    ""
}
fn mutate(r: &mut Rng, toks: &mut Vec<Tok>) {
    for _ in 0..1 + r.n(3) { if toks.is_empty() { break; } let i = r.n(toks.len()); match r.n(4) { 0 => { toks.remove(i); } 1 => { let t = soup(r, toks); toks.insert(i, t); } 2 => { let t = soup(r, toks); toks[i] = t; } _ => { let j = r.n(toks.len()); toks.swap(i, j); } } }
}
fn soup(r: &mut Rng, toks: &[Tok]) -> Tok {
    if r.p(40) && !toks.is_empty() { return toks[r.n(toks.len())].clone(); }
    let s = r.pick(&["(", ")", "[", "]", "{", "}", ",", ";", ":", "?", ".", "...", "=>", "=", "+=", "++", "--", "+", "-", "*", "**", "/", "%", "!", "~", "<", ">>>", "==", "&&", "||", "a", "b", "async", "await", "yield", "function", "class", "extends", "super", "static", "get", "set", "of", "in", "instanceof",
        "new", "target", "this", "null", "true", "1", "'s'", "\"use strict\"", "`t`", "`t${", "}x`", "}x${", "let", "const", "var", "if", "else", "for", "while", "do", "switch", "case", "default", "break", "continue", "return", "throw", "try", "catch", "finally", "with", "debugger", "delete", "typeof", "void",
        "import", "export", "from", "as", "constructor", "prototype", "__proto__", "eval", "arguments", "enum", "implements", "/r/g", "''", "'\\\n'", "é"]).to_string();
    let k = if s.starts_with('`') || (s.starts_with('}') && s.len() > 1) { K::Tmpl } else if s.starts_with('/') && s.len() > 1 { K::Regex } else if s.starts_with('\'') || s.starts_with('"') { K::Str } else if s.chars().next().unwrap().is_alphanumeric() { K::Word } else { K::Punct };
    Tok { s, k, nonl: false, forcenl: false }
}
/// statements at which the parser looks past its current token
fn look_program(g: &mut G, module: bool, len: usize) -> resast::Program {
    use resast::prelude::*;
    let mut g2 = G::new(g.r.next(), g.fuel, g.pr);
    let p = g2.program(module, 1);
    let mut v = match p { Program::Mod(v) | Program::Script(v) => v };
    g.out = g2.out;
    let strict = module || v.iter().any(|p| matches!(p, ProgramPart::Dir(d) if d.dir == "use strict"));
    for _ in 0..len + 1 {
        let e = |e: Expr| ProgramPart::Stmt(Stmt::Expr(e));
        let id = |s: &str| Expr::Ident(s.to_string());
        let call = |f: &str, a: Vec<Expr>| Expr::Call(CallExpr { callee: Box::new(Expr::Ident(f.to_string())), arguments: a });
        match g.r.n(14) {
            0 => { g.ts(&["import", "(", "a", ")"]); g.semi(); v.push(e(call("import", vec![id("a")]))); }
            1 if !strict => { g.ts(&["let", "=", "a"]); g.semi(); v.push(e(Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: AssignmentLeft::Expr(Box::new(id("let"))), right: Box::new(id("a")) }))); }
            2 if !strict => { g.ts(&["let"]); g.tk("", K::Semi); if g.r.p(60) { g.out.pop(); g.t(";"); } v.push(e(id("let"))); g.t(";"); v.push(ProgramPart::Stmt(Stmt::Empty)); let n = g.out.len(); if g.out[n - 2].s == "" { g.out.remove(n - 2); v.pop(); } }
            3 if !strict => { g.ts(&["let", ".", "a"]); g.semi(); v.push(e(Expr::Member(MemberExpr { object: Box::new(id("let")), property: Box::new(id("a")), computed: false }))); }
            4 if !strict => { g.ts(&["let", "(", "a", ")"]); g.semi(); v.push(e(call("let", vec![id("a")]))); }
            5 => { g.ts(&["let", "[", "a", "]", "=", "b"]); g.semi(); v.push(ProgramPart::Decl(Decl::Variable(VariableKind::Let, vec![VariableDecl { id: Pat::Array(vec![Some(ArrayPatPart::Pat(Pat::Identifier("a".into())))]), init: Some(id("b")) }]))); }
            6 => { g.ts(&["let", "a"]); g.semi(); v.push(ProgramPart::Decl(Decl::Variable(VariableKind::Let, vec![VariableDecl { id: Pat::Identifier("a".into()), init: None }]))); }
            7 => { g.t("async"); g.tn("function"); g.ts(&["f", "(", ")", "{", "}"]); v.push(e(Expr::Function(Function { id: Some("f".into()), params: vec![], body: vec![], generator: false, is_async: true }))); }
            8 => { g.ts(&["async", "(", "a", ")"]); g.semi(); v.push(e(call("async", vec![id("a")]))); }
            9 => { g.ts(&["async", "=", "a"]); g.semi(); v.push(e(Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: AssignmentLeft::Expr(Box::new(id("async"))), right: Box::new(id("a")) }))); }
            10 => { // async, new line, function: two statements
                g.t("async"); g.t("function"); g.out.last_mut().unwrap().forcenl = true; g.ts(&["f", "(", ")", "{", "}"]);
                v.push(e(id("async"))); v.push(ProgramPart::Decl(Decl::Function(Function { id: Some("f".into()), params: vec![], body: vec![], generator: false, is_async: false }))); }
            11 => { g.t("async"); g.tn("a"); g.tn("=>"); g.t("b"); g.semi(); v.push(e(Expr::ArrowFunction(ArrowFunctionExpr { id: None, params: vec![FunctionArg::Pat(Pat::Identifier("a".into()))], body: ArrowFunctionBody::Expr(Box::new(id("b"))), expression: true, generator: false, is_async: true }))); }
            12 => { g.ts(&["a", "=", "async"]); g.tn("function"); g.ts(&["(", ")", "{", "}"]); g.semi(); v.push(e(Expr::Assignment(AssignmentExpr { operator: AssignmentOperator::Equal, left: AssignmentLeft::Expr(Box::new(id("a"))), right: Box::new(Expr::Function(Function { id: None, params: vec![], body: vec![], generator: false, is_async: true })) }))); }
            _ => { g.ts(&["import", "(", "a", ")", ".", "then"]); g.semi(); v.push(e(Expr::Member(MemberExpr { object: Box::new(call("import", vec![id("a")])), property: Box::new(id("then")), computed: false }))); }
        }
    }
    if module { Program::Mod(v) } else { Program::Script(v) }
}

fn dump(path: &str, area: &str, seed: u64, c: &Case, why: &str) {
    let s = format!("area: {}\nseed: {}\nkind: {}\nmodule: {}\ntolerant: {}\nnote: {}\nfinding: {}\nexpect: {}\n---source---\n{}", area, seed, c.kind, c.module, c.tolerant, c.note.replace('\n', " "), why.replace('\n', " | "), c.expect.replace('\n', " "), c.src);
    let _ = std::fs::write(path, s);
}
/// stops a case that keeps allocating
struct Meter;
static USED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static MEMFULL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if USED.fetch_add(l.size(), Ordering::Relaxed) > (2usize << 30) && !MEMFULL.swap(true, Ordering::SeqCst) {
            loop { std::thread::sleep(std::time::Duration::from_secs(1)); }
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        USED.fetch_sub(l.size(), Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static METER: Meter = Meter;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); LOC.with(|x| *x.borrow_mut() = l); }));
    let mode = a.get(1).cloned().unwrap_or_default();
    let cur: Arc<Mutex<Option<(u64, Case)>>> = Arc::new(Mutex::new(None));
    let beat = Arc::new(AtomicU64::new(0));
    let (c2, b2) = (cur.clone(), beat.clone());
    let a2 = a.clone();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || -> i32 {
        if a2[1] == "replay" {
            let t = std::fs::read_to_string(&a2[2]).unwrap();
            let (h, src) = t.split_once("\n---source---\n").unwrap();
            let f = |k: &str| h.lines().find(|l| l.starts_with(&format!("{}: ", k))).map(|l| l[k.len() + 2..].to_string()).unwrap_or_default();
            let kind = match f("kind").as_str() { "ast" => "ast", "reject" => "reject", "accept" => "accept", "trip" => "trip", "agree" => "agree", "safe" => "safe", "comments" => "comments", "errpos" => "errpos", "api" => "api", _ => "?" };
            let c = Case { kind, module: f("module") == "true", tolerant: f("tolerant") == "true", src: src.to_string(), expect: f("expect"), note: f("note") };
            *c2.lock().unwrap() = Some((0, c.clone()));
            b2.fetch_add(1, Ordering::SeqCst);
            return match guarded(&c) { Ok(()) => { println!("holds"); 0 } Err(e) => { println!("violated: {}\nsource:\n{}", e, c.src); 1 } };
        }
        let area = a2[1].clone();
        let seed: u64 = a2[2].parse().unwrap();
        let iters: u64 = a2[3].parse().unwrap();
        let mut n = std::collections::BTreeMap::new();
        let mut best: Option<(u64, Case, String)> = None;
        let mut fails = 0;
        let show = a2.get(5).is_some();
        let mut accepted = 0u64;
        let mut distinct = std::collections::HashSet::new();
        for i in 0..iters {
            let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
            for c in make(&area, s) {
                *c2.lock().unwrap() = Some((s, c.clone()));
                b2.fetch_add(1, Ordering::SeqCst);
                *n.entry(c.kind).or_insert(0u64) += 1;
                if show { println!("[{}] {:?}", c.kind, c.src); }
                if c.src.len() >= 20 { use std::hash::{Hash, Hasher}; let mut hs = std::collections::hash_map::DefaultHasher::new(); c.src.hash(&mut hs); c.module.hash(&mut hs); distinct.insert(hs.finish()); }
                match guarded(&c) {
                    Ok(()) => { accepted += 1; }
                    Err(e) => { fails += 1; if best.as_ref().map(|b| b.1.src.len() > c.src.len()).unwrap_or(true) { best = Some((s, c, e)); } }
                }
            }
            if fails >= 60 { break; }
        }
        println!("area={} seed={} cases={:?} held={} failed={} distinct={}", area, seed, n, accepted, fails, distinct.len());
        if let Some((s, c, e)) = best {
            println!("seed {} {}: {}\nsource ({}): {:?}", s, c.kind, e, if c.module { "module" } else { "script" }, c.src);
            dump(&a2[4], &area, s, &c, &e);
            return 1;
        }
        0
    }).unwrap();
    let mut last = (u64::MAX, std::time::Instant::now());
    loop {
        if h.is_finished() { let r = h.join().unwrap_or(2); let _ = std::io::stdout().flush(); std::process::exit(r); }
        let b = beat.load(Ordering::SeqCst);
        if b != last.0 { last = (b, std::time::Instant::now()); }
        else if (last.1.elapsed().as_secs() >= 8 || MEMFULL.load(Ordering::SeqCst)) && b > 0 {
            let c = cur.lock().unwrap().clone();
            let why = if MEMFULL.load(Ordering::SeqCst) { "takes more than 2 GB" } else { "no end after 8 s" };
            if let Some((s, c)) = c { println!("{}: seed {} source {:?}", why, s, c.src); if mode != "replay" { dump(&a[4], &mode, s, &c, why); } }
            std::process::exit(1);
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}
