//! Nested functions, classes, loops, switches and labels with statements whose legality depends on what encloses them:
//! nothing a construct turns on may be left on behind it, nor turned off inside it.
use crate::gen::Rng;
#[derive(Clone)]
/// 0 no, 1 yes, 2 not decided here
struct S { strict: bool, awt: u8, gen: u8, iter: bool, sw: bool, infn: bool, newt: u8, labels: Vec<String>, loops: Vec<String>, outer: Vec<String> }
pub struct Scope { pub r: Rng, fuel: i32, nlabel: usize, /// plant one illegal statement
    bad: bool, pub planted: Option<String>, topic: usize }
impl Scope {
    fn probe(&mut self, s: &S) -> String {
        let lab = |v: &Vec<String>, r: &mut Rng, d: &str| if v.is_empty() { d.to_string() } else { v[r.n(v.len())].clone() };
        let l = lab(&s.labels, &mut self.r, "zz");
        let ll = lab(&s.loops, &mut self.r, "zz");
        let ol = lab(&s.outer, &mut self.r, "zz");
        let legal_yield_id = if s.strict || s.gen == 1 { 0 } else if s.gen == 2 { 2 } else { 1 };
        let v: Vec<(String, u8, usize)> = vec![
            ("with ( a ) b ;".into(), !s.strict as u8, 0), ("implements = a ;".into(), !s.strict as u8, 0), ("eval = a ;".into(), !s.strict as u8, 0),
            ("delete a ;".into(), !s.strict as u8, 0), ("var static ;".into(), !s.strict as u8, 0), ("arguments ++ ;".into(), !s.strict as u8, 0), ("( private ) => a ;".into(), !s.strict as u8, 0), ("package => a ;".into(), !s.strict as u8, 0), ("a ( function eval ( ) { } ) ;".into(), !s.strict as u8, 0),
            ("var { eval } = a ;".into(), !s.strict as u8, 0), ("let { eval = b } = a ;".into(), !s.strict as u8, 0), ("var { c : arguments } = a ;".into(), !s.strict as u8, 0), ("const [ b , eval ] = a ;".into(), !s.strict as u8, 0), ("var [ ... arguments ] = a ;".into(), !s.strict as u8, 0),
            ("try { } catch ( { eval } ) { }".into(), !s.strict as u8, 0), ("try { } catch ( arguments ) { }".into(), !s.strict as u8, 0), ("for ( let { eval } of a ) ;".into(), !s.strict as u8, 0), ("for ( var arguments in a ) ;".into(), !s.strict as u8, 0), ("for ( let b = c , eval ; ; ) ;".into(), !s.strict as u8, 0),
            ("a ( function ( { eval } ) { } ) ;".into(), !s.strict as u8, 0), ("a ( { set b ( eval ) { } } ) ;".into(), !s.strict as u8, 0), ("a ( { b ( c , arguments ) { } } ) ;".into(), !s.strict as u8, 0), ("a ( async function ( ... eval ) { } ) ;".into(), !s.strict as u8, 0), ("a ( function * ( eval = b ) { } ) ;".into(), !s.strict as u8, 0), ("a ( ( { eval } ) => b ) ;".into(), !s.strict as u8, 0), ("a ( async ( [ arguments ] ) => b ) ;".into(), !s.strict as u8, 0),
            ("a ( function ( eval ) { 'use§strict' } ) ;".into(), 0, 0), ("a ( function arguments ( ) { 'use§strict' } ) ;".into(), 0, 0), ("a ( { set b ( eval ) { 'use§strict' } } ) ;".into(), 0, 0), ("a ( { b ( arguments ) { 'use§strict' } } ) ;".into(), 0, 0), ("a ( async function ( eval ) { 'use§strict' } ) ;".into(), 0, 0), ("a ( ( eval ) => { 'use§strict' } ) ;".into(), 0, 0), ("a ( eval => { 'use§strict' } ) ;".into(), 0, 0),
            ("function f ( b , eval ) { 'use§strict' }".into(), 0, 0), ("function eval ( ) { 'use§strict' }".into(), 0, 0), ("a ( { set b ( [ c ] ) { 'use§strict' } } ) ;".into(), 0, 0), ("a ( ( b = c ) => { 'use§strict' } ) ;".into(), 0, 0), ("a ( function ( ... b ) { 'use§strict' } ) ;".into(), 0, 0), ("class A { b ( { c } ) { 'use§strict' } }".into(), 0, 0),
            ("await = a ;".into(), if s.awt == 1 { 0 } else { 2 }, 1), ("a ( await ) ;".into(), if s.awt == 1 { 0 } else { 2 }, 1), ("await a ;".into(), s.awt, 1), ("a ( await b ) ;".into(), s.awt, 1), ("for await ( a of b ) ;".into(), s.awt, 1),
            ("yield = a ;".into(), legal_yield_id, 2), ("a ( - yield ) ;".into(), legal_yield_id, 2), ("yield a ;".into(), s.gen, 2), ("a ( yield b ) ;".into(), s.gen, 2), ("yield * a ;".into(), if s.gen == 1 { 1 } else { 2 }, 2),
            ("break ;".into(), (s.iter || s.sw) as u8, 3), ("continue ;".into(), s.iter as u8, 3), ("if ( a ) break ;".into(), (s.iter || s.sw) as u8, 3), ("if ( a ) continue ;".into(), s.iter as u8, 3),
            ("return ;".into(), s.infn as u8, 4), ("if ( a ) return b ;".into(), s.infn as u8, 4), ("new . target ;".into(), s.newt, 4), ("a ( new . target ) ;".into(), s.newt, 4),
            (format!("break {} ;", l), !s.labels.is_empty() as u8, 5), (format!("continue {} ;", ll), !s.loops.is_empty() as u8, 5), (format!("break {} ;", ol), 0, 5), (format!("{} : a ;", l), s.labels.is_empty() as u8, 5), (format!("{} : a ;", ol), 1, 5),
        ];
        let plant = self.bad && self.planted.is_none() && self.r.p(25);
        let want = if plant { 0 } else { 1 };
        let topic = if self.r.p(70) { self.topic } else { self.r.n(6) };
        let c: Vec<&(String, u8, usize)> = v.iter().filter(|x| x.1 == want && x.2 == topic).collect();
        if c.is_empty() { return "a ;".into(); }
        let t = c[self.r.n(c.len())].0.clone();
        if plant { self.planted = Some(t.clone()); }
        t
    }
    fn body(&mut self, s: &S, directive: bool) -> String {
        let mut s = s.clone();
        let mut o = String::new();
        if directive && self.r.p(if self.topic == 0 { 40 } else { 10 }) { s.strict = true; o.push_str("'use§strict' ; "); }
        let n = self.r.n(4);
        for _ in 0..n { o.push_str(&self.stmt(&s)); o.push(' '); }
        o
    }
    fn fnstate(&self, s: &S, asy: bool, gen: bool) -> S { S { strict: s.strict, awt: asy as u8, gen: gen as u8, iter: false, sw: false, infn: true, newt: 1, labels: vec![], loops: vec![], outer: s.labels.iter().chain(s.outer.iter()).cloned().collect() } }
    /// the parameters of a function whose body is read in the state t, and whether a directive may follow
    fn params(&mut self, t: &S, first: &str) -> (String, bool) {
        if !self.r.p(30) { return (first.to_string(), true); }
        let name = if first.is_empty() { "b" } else { first };
        if self.bad && self.planted.is_none() && self.r.p(30) {
            let mut v = vec![];
            if t.awt == 0 { v.push("await c"); v.push("a ( await c )"); v.push("[ await c ]"); }
            if t.gen == 0 { v.push("yield c"); v.push("a ( yield c )"); }
            if !v.is_empty() { let w = format!("{} = {}", name, self.r.pick(&v)); self.planted = Some(w.clone()); return (w, false); }
        }
        if self.r.p(30) { return (format!("{} = c", name), false); }
        let mut u = t.clone();
        if u.awt == 1 { u.awt = 2; }
        if u.gen == 1 { u.gen = 2; }
        self.fuel -= 2;
        if self.fuel <= 0 { return (first.to_string(), true); }
        (format!("{} = {}", name, self.expr(&u)), false)
    }
    fn arrowstate(&self, s: &S, asy: bool) -> S {
        let mut t = self.fnstate(s, asy, false);
        if !asy && s.awt != 0 { t.awt = 2; }
        if s.gen != 0 { t.gen = 2; }
        t.newt = if s.newt == 1 { 1 } else { 2 };
        t
    }
    /// a parenthesized or otherwise delimited expression holding a function body or a class
    fn expr(&mut self, s: &S) -> String {
        let (a, g) = (self.r.p(35), self.r.p(35));
        let k = self.r.n(17);
        match k {
            0 | 1 => { let t = self.fnstate(s, a, g); let (p, dir) = self.params(&t, ""); format!("( {}function {} ( {} ) {{ {} }} )", if a { "async " } else { "" }, if g { "*" } else { "" }, p, self.body(&t, dir)) }
            2 => { let t = self.arrowstate(s, false); format!("( ( ) => {{ {} }} )", self.body(&t, true)) }
            3 => { let t = self.arrowstate(s, false); format!("( b => {{ {} }} )", self.body(&t, true)) }
            4 => { let t = self.arrowstate(s, true); format!("( async ( b ) => {{ {} }} )", self.body(&t, true)) }
            5 => { let t = self.arrowstate(s, true); format!("( async b => {{ {} }} )", self.body(&t, true)) }
            6 => { let t = self.arrowstate(s, false); format!("( ( b , c ) => {{ {} }} )", self.body(&t, true)) }
            7 | 8 => { let mut t = self.fnstate(s, a, g); t.strict = true; let st = if self.r.p(30) { "static " } else { "" };
                let (p, dir) = self.params(&t, ""); let c = format!("class {} {{ {}{}{}m ( {} ) {{ {} }} }}", self.r.pick(&["", "A", "extends b", "A extends b"]), st, if a { "async " } else { "" }, if g { "* " } else { "" }, p, self.body(&t, dir)); format!("( {} )", c.replace("  ", " ")) }
            9 => { let mut t = self.fnstate(s, false, false); t.strict = true; format!("( class {{ {} }} )", match self.r.n(3) { 0 => { let (p, dir) = self.params(&t, ""); format!("constructor ( {} ) {{ {} }}", p, self.body(&t, dir)) } 1 => format!("get m ( ) {{ {} }}", self.body(&t, true)), _ => { let (p, dir) = self.params(&t, "b"); format!("static set m ( {} ) {{ {} }}", p, self.body(&t, dir)) } }) }
            10 => { let mut t = s.clone(); t.strict = true; let e = self.expr(&t); if self.r.p(50) { format!("( class extends {} {{ }} )", e) } else { format!("( class {{ [ {} ] ( ) {{ }} }} )", e) } }
            11 | 12 => { let t = self.fnstate(s, a, g); let (p, dir) = self.params(&t, ""); format!("( {{ {}{}m ( {} ) {{ {} }} }} )", if a { "async " } else { "" }, if g { "* " } else { "" }, p, self.body(&t, dir)) }
            13 => { let t = self.fnstate(s, false, false); if self.r.p(50) { format!("( {{ get m ( ) {{ {} }} }} )", self.body(&t, true)) } else { let (p, dir) = self.params(&t, "b"); format!("( {{ set m ( {} ) {{ {} }} }} )", p, self.body(&t, dir)) } }
            14 => format!("[ {} , b ]", self.expr(s)),
            15 => format!("( {{ [ {} ] : b }} )", self.expr(s)),
            _ => format!("a ( {} , b )", self.expr(s)),
        }
    }
    fn stmt(&mut self, s: &S) -> String {
        self.fuel -= 1;
        if self.fuel <= 0 || self.r.p(35) { return self.probe(s); }
        let mut it = s.clone(); it.iter = true;
        let mut sw = s.clone(); sw.sw = true;
        match self.r.n(22) {
            0 => format!("{{ {} }}", self.body(s, false)),
            1 => format!("if ( a ) {{ {} }} else {{ {} }}", self.body(s, false), self.body(s, false)),
            2 => format!("while ( a ) {{ {} }}", self.body(&it, false)),
            3 => format!("do {{ {} }} while ( a ) ;", self.body(&it, false)),
            4 => format!("for ( {} ) {{ {} }}", self.r.pick(&["; ;", "a ; b ; c", "var a = b ; ;", "let a ; b ;"]).to_string(), self.body(&it, false)),
            5 => format!("for ( {} ) {{ {} }}", self.r.pick(&["a in b", "a of b", "var a in b", "let a of b", "const a of b", "a . b of c"]).to_string(), self.body(&it, false)),
            6 => format!("switch ( a ) {{ case b : {} default : {} }}", self.body(&sw, false), self.body(&sw, false)),
            7 => { self.nlabel += 1; let l = format!("l{}", self.nlabel); let mut t = s.clone(); t.labels.push(l.clone()); format!("{} : {{ {} }}", l, self.body(&t, false)) }
            8 | 9 => { self.nlabel += 1; let l = format!("l{}", self.nlabel); it.labels.push(l.clone()); it.loops.push(l.clone()); format!("{} : {} {{ {} }}", l, self.r.pick(&["while ( a )", "for ( ; ; )", "for ( a in b )", "for ( let a of b )"]).to_string(), self.body(&it, false)) }
            10 => format!("try {{ {} }} {}", self.body(s, false), match self.r.n(3) { 0 => format!("catch ( e ) {{ {} }}", self.body(s, false)), 1 => format!("finally {{ {} }}", self.body(s, false)), _ => format!("catch ( [ e ] ) {{ {} }} finally {{ {} }}", self.body(s, false), self.body(s, false)) }),
            11 => { let (a, g) = (self.r.p(35), self.r.p(35)); let t = self.fnstate(s, a, g); let (p, dir) = self.params(&t, ""); format!("{}function {}f ( {} ) {{ {} }}", if a { "async " } else { "" }, if g { "* " } else { "" }, p, self.body(&t, dir)) }
            12 => { let (a, g) = (self.r.p(35), self.r.p(35)); let mut t = self.fnstate(s, a, g); t.strict = true; format!("class A {{ {}{}m ( ) {{ {} }} n ( ) {{ }} }}", if a { "async " } else { "" }, if g { "* " } else { "" }, self.body(&t, true)) }
            13 => format!("{} ;", self.expr(s)),
            14 => format!("a = {} ;", self.expr(s)),
            15 => format!("{} b = {} , c ;", self.r.pick(&["var", "let"]).to_string(), self.expr(s)),
            16 => format!("if ( {} ) {{ {} }}", self.expr(s), self.body(s, false)),
            17 => format!("switch ( {} ) {{ case {} : {} }}", self.expr(s), self.expr(s), self.body(&sw, false)),
            18 => format!("while ( {} ) {{ {} }}", self.expr(s), self.body(&it, false)),
            19 => format!("for ( {} {} ) {{ {} }}", match self.r.n(3) { 0 => format!("a = {} ;", self.expr(s)), 1 => format!("var b = {} ;", self.expr(s)), _ => format!("; {}", self.expr(s)) }, ";", self.body(&it, false)),
            20 => format!("for ( a {} {} ) {{ {} }}", self.r.pick(&["in", "of"]).to_string(), self.expr(s), self.body(&it, false)),
            _ => format!("do {{ {} }} while ( {} ) ;", self.body(&it, false), self.expr(s)),
        }
    }
    /// the text (words separated by a blank), and the illegal statement planted in it
    pub fn program(r: Rng, module: bool, bad: bool, topic: usize) -> (String, Option<String>) {
        let mut g = Scope { r, fuel: 0, nlabel: 0, bad, planted: None, topic };
        g.fuel = 4 + g.r.n(14) as i32;
        let s = S { strict: module, awt: if module { 2 } else { 0 }, gen: 0, iter: false, sw: false, infn: false, newt: 0, labels: vec![], loops: vec![], outer: vec![] };
        let mut o = String::from(";");
        for _ in 0..2 + g.r.n(3) { o.push(' '); let t = g.stmt(&s); o.push_str(&t); }
        let words: Vec<&str> = o.split(' ').filter(|w| !w.is_empty()).collect();
        (words.join(" "), g.planted)
    }
}
