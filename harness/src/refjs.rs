//! Reference syntactic grammar (ECMA-262 ed. 12, chapters 13-16): a recursive-descent recogniser
//! transcribed from the productions, that resolves every ambiguity the way the specification states
//! it (ordered attempts: arrow parameters, assignment pattern, expression) instead of by cover
//! grammars. Produces the neutral tree `N` with byte ranges, or a rejection together with the
//! information whether the text is a viable prefix (some attempt failed only at the end of text).

use crate::node::N;
use crate::reflex::{self, Goal, Tok, K};

pub struct Fail;
type R<T> = Result<T, Fail>;

#[derive(Clone, Copy, Debug)]
pub struct Ctx {
    pub y: bool,
    pub a: bool,
    pub i: bool,
    pub r: bool,
    pub strict: bool,
    pub sprop: bool,
    pub scall: bool,
    pub deflt: bool,
    /// Inside parameters where a yield/await expression is an early error.
    pub no_ya: bool,
}

impl Ctx {
    pub fn top(strict: bool) -> Ctx {
        Ctx { y: false, a: false, i: true, r: false, strict, sprop: false, scall: false, deflt: false, no_ya: false }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    Script,
    Module,
    /// One expression / statement from the start of the text; the rest of the text is not looked at.
    Expr,
    Stmt,
}

pub struct Outcome {
    pub tree: Option<N>,
    /// Some attempt failed (or the text was accepted) only for want of more text.
    pub viable: bool,
    /// Start of the furthest token at which an attempt failed.
    pub far: usize,
    /// The text uses something the properties say nothing about (see DESIGN.md); the verdict above
    /// is then not compared.
    pub unclaimed: bool,
}

#[derive(Clone, Copy)]
struct Save<'a> {
    end: usize,
    tok: Option<Tok<'a>>,
    trail: usize,
    binds_eval: bool,
}

pub struct P<'a> {
    src: &'a str,
    module: bool,
    end: usize,
    tok: Option<Tok<'a>>,
    far: usize,
    eof_seen: bool,
    unclaimed: bool,
    /// Strict mode code binds `eval` or `arguments` somewhere.
    binds_eval: bool,
    quirks: u8,
    /// The tokens consumed so far, when wanted.
    trail: Option<Vec<(usize, usize)>>,
    /// The tokens in front of the furthest failure.
    far_trail: Vec<(usize, usize)>,
}

/// Deviations of the tree that the repository's own tests pin (see known-findings.json): the
/// reference can be told to follow one of them, to recognise that it explains a difference.
pub const Q_POW: u8 = 1;
pub const Q_ELIDE: u8 = 2;
pub const Q_GEN: u8 = 4;
/// Bit, name, and the property the deviation belongs to.
pub const QUIRKS: [(u8, &str, &str); 3] =
    [(Q_POW, "pow-left", "P02"), (Q_ELIDE, "array-pattern-comma", "P04"), (Q_GEN, "method-in-generator", "P06")];

pub fn parse(src: &str, entry: Entry) -> Outcome {
    parse_mode(src, entry, entry == Entry::Module)
}

pub fn parse_mode(src: &str, entry: Entry, module: bool) -> Outcome {
    parse_quirks(src, entry, module, 0)
}

pub fn parse_quirks(src: &str, entry: Entry, module: bool, quirks: u8) -> Outcome {
    run(src, entry, module, quirks, None).0
}

/// Also the ranges of the tokens of the text: all of them when it is accepted, and otherwise those
/// in front of the one that cannot be continued with.
pub fn parse_tokens(src: &str, entry: Entry, module: bool) -> (Outcome, Vec<(usize, usize)>) {
    run(src, entry, module, 0, Some(vec![]))
}

fn run(src: &str, entry: Entry, module: bool, quirks: u8, trail: Option<Vec<(usize, usize)>>) -> (Outcome, Vec<(usize, usize)>) {
    let mut p = P { src, module, end: 0, tok: None, far: 0, eof_seen: false, unclaimed: false, binds_eval: false, quirks, trail, far_trail: vec![] };
    let c = Ctx::top(module);
    let r = match entry {
        Entry::Script | Entry::Module => p.program(c),
        Entry::Expr => p.expr(c),
        Entry::Stmt => p.stmt_item(c, true),
    };
    let unclaimed = p.unclaimed || r.is_ok() && p.binds_eval;
    let trail = if r.is_ok() { p.trail.unwrap_or_default() } else { p.far_trail };
    (Outcome { tree: r.ok(), viable: p.eof_seen, far: p.far, unclaimed }, trail)
}

const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null",
    "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with",
];
const STRICT_RESERVED: &[&str] =
    &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];

pub fn is_reserved(n: &str) -> bool {
    RESERVED.contains(&n)
}

const ASSIGN_OPS: &[&str] = &["=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", ">>>=", "&=", "^=", "|=", "**="];

fn binprec(op: &str) -> u8 {
    match op {
        "|" => 1,
        "^" => 2,
        "&" => 3,
        "==" | "!=" | "===" | "!==" => 4,
        "<" | ">" | "<=" | ">=" | "instanceof" | "in" => 5,
        "<<" | ">>" | ">>>" => 6,
        "+" | "-" => 7,
        "*" | "/" | "%" => 8,
        "**" => 9,
        _ => 0,
    }
}

impl<'a> P<'a> {
    // ---------------------------------------------------------------- tokens
    fn peek(&mut self) -> Tok<'a> {
        if let Some(t) = self.tok {
            return t;
        }
        let t = reflex::lex(self.src, self.end, Goal::Div, self.module);
        if t.k == K::Eof || t.at_eof {
            self.eof_seen = true;
        }
        self.tok = Some(t);
        t
    }
    fn relex(&mut self, goal: Goal) -> Tok<'a> {
        let at = self.peek();
        let mut t = reflex::lex(self.src, at.s, goal, self.module);
        t.nl = at.nl;
        if t.at_eof {
            self.eof_seen = true;
        }
        self.tok = Some(t);
        t
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.peek();
        self.end = t.e;
        self.tok = None;
        if let Some(l) = &mut self.trail {
            l.push((t.s, t.e));
        }
        t
    }
    fn save(&self) -> Save<'a> {
        Save { end: self.end, tok: self.tok, trail: self.trail.as_ref().map_or(0, |l| l.len()), binds_eval: self.binds_eval }
    }
    fn restore(&mut self, s: Save<'a>) {
        self.end = s.end;
        self.tok = s.tok;
        self.binds_eval = s.binds_eval;
        if let Some(l) = &mut self.trail {
            l.truncate(s.trail);
        }
    }
    fn fail<T>(&mut self) -> R<T> {
        let s = self.peek().s;
        if let Some(l) = &self.trail {
            if s > self.far || self.far_trail.is_empty() {
                self.far_trail = l.clone();
            }
        }
        self.far = self.far.max(s);
        Err(Fail)
    }
    fn is(&mut self, p: &str) -> bool {
        let t = self.peek();
        t.k == K::P && t.v == p
    }
    fn is_kw(&mut self, n: &str) -> bool {
        let t = self.peek();
        t.k == K::Name && !t.esc && t.v == n
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_kw(&mut self, n: &str) -> bool {
        if self.is_kw(n) {
            self.next();
            true
        } else {
            false
        }
    }
    fn want(&mut self, p: &str) -> R<Tok<'a>> {
        if self.is(p) {
            Ok(self.next())
        } else {
            self.fail()
        }
    }
    fn want_kw(&mut self, n: &str) -> R<Tok<'a>> {
        if self.is_kw(n) {
            Ok(self.next())
        } else {
            self.fail()
        }
    }
    fn start(&mut self) -> usize {
        self.peek().s
    }
    /// The token after the current one, without consuming.
    fn peek2(&mut self) -> Tok<'a> {
        let s = self.save();
        self.next();
        let t = self.peek();
        self.restore(s);
        t
    }
    fn semicolon(&mut self) -> R<()> {
        if self.eat(";") {
            return Ok(());
        }
        let t = self.peek();
        if t.k == K::Eof || t.nl || (t.k == K::P && t.v == "}") {
            return Ok(());
        }
        self.fail()
    }
    fn name_value(t: &Tok) -> String {
        if t.esc {
            reflex::unescape_name(t.v)
        } else {
            t.v.to_string()
        }
    }
    fn is_ident_tok(&self, t: &Tok, c: Ctx) -> bool {
        if t.k != K::Name {
            return false;
        }
        let owned;
        let n = if t.esc {
            owned = reflex::unescape_name(t.v);
            owned.as_str()
        } else {
            t.v
        };
        if is_reserved(n) {
            return false;
        }
        if c.strict && STRICT_RESERVED.contains(&n) {
            return false;
        }
        if n == "yield" && c.y {
            return false;
        }
        if n == "await" && (c.a || self.module) {
            return false;
        }
        true
    }
    fn ident(&mut self, c: Ctx) -> R<N> {
        let t = self.peek();
        if self.is_ident_tok(&t, c) {
            self.next();
            Ok(N::new("Id", t.s, t.e, Self::name_value(&t), vec![]))
        } else {
            self.fail()
        }
    }
    fn ident_name(&mut self) -> R<N> {
        let t = self.peek();
        if t.k == K::Name {
            self.next();
            Ok(N::new("Id", t.s, t.e, Self::name_value(&t), vec![]))
        } else {
            self.fail()
        }
    }
    fn mk(&self, k: &'static str, s: usize, t: impl Into<String>, c: Vec<N>) -> N {
        N::new(k, s, self.end, t, c)
    }
    fn str_payload(t: &Tok) -> String {
        let (_, v) = reflex::string(t.v).ok().unwrap();
        format!("{}{}", &t.v[..1], v.unwrap_or_else(|| "<lone surrogate>".into()))
    }

    // ---------------------------------------------------------------- expressions
    pub fn expr(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let e = self.assign(c)?;
        if !self.is(",") {
            return Ok(e);
        }
        let mut v = vec![e];
        while self.eat(",") {
            v.push(self.assign(c)?);
        }
        Ok(self.mk("Seq", s, "", v))
    }

    pub fn assign(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let t = self.peek();
        if t.k == K::Name {
            if c.y && !t.esc && t.v == "yield" {
                return self.yield_expr(c);
            }
            if !t.esc && t.v == "async" {
                let sv = self.save();
                if let Some(head) = self.try_async_arrow_head(c, s) {
                    return self.arrow_body(c, s, true, head.0, head.1);
                }
                self.restore(sv);
            }
            if self.is_ident_tok(&t, c) {
                let sv = self.save();
                let id = self.ident(c)?;
                if self.is("=>") && !self.peek().nl {
                    let p = ident_params(id);
                    return self.arrow_body(c, s, false, true, p);
                }
                self.restore(sv);
            }
        } else if t.k == K::P {
            if t.v == "(" {
                let sv = self.save();
                let pc = Ctx { no_ya: true, i: true, ..c };
                if let Ok(p) = self.params(pc) {
                    if self.is("=>") && !self.peek().nl {
                        return self.arrow_body(c, s, false, false, p);
                    }
                    if self.is("=>") {
                        self.fail::<()>().ok();
                    }
                }
                self.restore(sv);
            } else if t.v == "[" || t.v == "{" {
                let sv = self.save();
                if let Ok(left) = self.assign_pattern(c) {
                    if self.eat("=") {
                        let right = self.assign(c)?;
                        return Ok(self.mk("Assign", s, "=", vec![left, right]));
                    }
                }
                self.restore(sv);
            }
        }
        let left = self.conditional(c)?;
        let t = self.peek();
        if t.k == K::P && ASSIGN_OPS.contains(&t.v) {
            if !simple_target(&left, c.strict) {
                return self.fail();
            }
            self.next();
            let right = self.assign(c)?;
            return Ok(self.mk("Assign", s, t.v, vec![left, right]));
        }
        Ok(left)
    }

    /// `async x =>` / `async (..) =>` up to, not including, the arrow.
    fn try_async_arrow_head(&mut self, c: Ctx, _s: usize) -> Option<(bool, N)> {
        self.next();
        let t = self.peek();
        if t.nl {
            return None;
        }
        let pc = Ctx { a: true, i: true, no_ya: true, ..c };
        let r = if t.k == K::Name {
            let id = self.ident(pc).ok()?;
            (true, ident_params(id))
        } else if t.k == K::P && t.v == "(" {
            (false, self.params(pc).ok()?)
        } else {
            return None;
        };
        let t = self.peek();
        if t.k == K::P && t.v == "=>" && !t.nl {
            Some(r)
        } else {
            self.fail::<()>().ok();
            None
        }
    }

    fn arrow_body(&mut self, c: Ctx, s: usize, is_async: bool, bind: bool, p: N) -> R<N> {
        self.want("=>")?;
        let bc = Ctx { y: false, a: is_async, i: c.i, r: false, deflt: false, no_ya: false, ..c };
        let body = if self.is("{") {
            self.body(Ctx { i: true, r: true, ..bc })?
        } else {
            self.assign(bc)?
        };
        let t = format!("{}{}", if is_async { "a" } else { "" }, if bind { "b" } else { "" });
        Ok(self.mk("Arrow", s, t, vec![p, body]))
    }

    fn yield_expr(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        if c.no_ya {
            return self.fail();
        }
        self.next();
        let t = self.peek();
        let ends = t.nl
            || t.k == K::Eof
            || (t.k == K::P && matches!(t.v, ")" | "]" | "}" | "," | ";" | ":"))
            || (t.k == K::Name && !t.esc && (t.v == "in" || t.v == "of"))
            || (t.k == K::P && t.v == "?");
        // `yield` without operand is an AssignmentExpression; only tokens that can start an
        // AssignmentExpression (or `*`) continue it. `of` starts one (it is a name).
        if ends && !(t.k == K::Name && t.v == "of" && !t.nl) {
            return Ok(self.mk("Yield", s, "", vec![]));
        }
        let star = self.eat("*");
        let e = self.assign(c)?;
        Ok(self.mk("Yield", s, if star { "*" } else { "" }, vec![e]))
    }

    fn conditional(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let e = self.short_circuit(c)?;
        if !self.eat("?") {
            return Ok(e);
        }
        let a = self.assign(Ctx { i: true, ..c })?;
        self.want(":")?;
        let b = self.assign(c)?;
        Ok(self.mk("Cond", s, "", vec![e, a, b]))
    }

    fn short_circuit(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let first = self.binary(c, 1)?;
        if self.is("??") {
            let mut l = first;
            while self.eat("??") {
                let r = self.binary(c, 1)?;
                l = self.mk("Logic", s, "??", vec![l, r]);
            }
            return Ok(l);
        }
        let mut l = self.logical_and(c, s, first)?;
        while self.eat("||") {
            let s2 = self.start();
            let f = self.binary(c, 1)?;
            let r = self.logical_and(c, s2, f)?;
            l = self.mk("Logic", s, "||", vec![l, r]);
        }
        Ok(l)
    }

    fn logical_and(&mut self, c: Ctx, s: usize, first: N) -> R<N> {
        let mut l = first;
        while self.eat("&&") {
            let r = self.binary(c, 1)?;
            l = self.mk("Logic", s, "&&", vec![l, r]);
        }
        Ok(l)
    }

    fn binary(&mut self, c: Ctx, min: u8) -> R<N> {
        let s = self.start();
        let mut l = self.unary(c)?;
        loop {
            let t = self.peek();
            let prec = match t.k {
                K::P => binprec(t.v),
                K::Name if !t.esc && t.v == "instanceof" => 5,
                K::Name if !t.esc && t.v == "in" && c.i => 5,
                _ => 0,
            };
            if prec == 0 || prec < min {
                return Ok(l);
            }
            if t.v == "**" {
                if l.k == "Unary" || l.k == "Await" {
                    return self.fail();
                }
                self.next();
                let r = if self.quirks & Q_POW != 0 {
                    let r = self.unary(c)?;
                    if self.is("**") && (r.k == "Unary" || r.k == "Await") {
                        return self.fail();
                    }
                    r
                } else {
                    self.binary(c, 9)?
                };
                l = self.mk("Bin", s, "**", vec![l, r]);
            } else {
                self.next();
                let r = self.binary(c, prec + 1)?;
                l = self.mk("Bin", s, t.v, vec![l, r]);
            }
        }
    }

    fn unary(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let t = self.peek();
        if t.k == K::P && matches!(t.v, "+" | "-" | "~" | "!") {
            self.next();
            let e = self.unary(c)?;
            return Ok(self.mk("Unary", s, t.v, vec![e]));
        }
        if t.k == K::Name && !t.esc && matches!(t.v, "delete" | "void" | "typeof") {
            self.next();
            let e = self.unary(c)?;
            if t.v == "delete" && c.strict {
                let mut x = &e;
                while x.k == "Paren" {
                    x = &x.c[0];
                }
                if x.k == "Id" {
                    return self.fail();
                }
            }
            return Ok(self.mk("Unary", s, t.v, vec![e]));
        }
        if c.a && t.k == K::Name && !t.esc && t.v == "await" {
            if c.no_ya {
                return self.fail();
            }
            self.next();
            let e = self.unary(c)?;
            return Ok(self.mk("Await", s, "", vec![e]));
        }
        // UpdateExpression
        if t.k == K::P && matches!(t.v, "++" | "--") {
            self.next();
            let e = self.unary(c)?;
            if !simple_target(&e, c.strict) {
                return self.fail();
            }
            return Ok(self.mk("Update", s, format!("pre{}", t.v), vec![e]));
        }
        let e = self.lhs(c)?;
        let t = self.peek();
        if t.k == K::P && matches!(t.v, "++" | "--") && !t.nl {
            if !simple_target(&e, c.strict) {
                return self.fail();
            }
            self.next();
            return Ok(self.mk("Update", s, format!("post{}", t.v), vec![e]));
        }
        Ok(e)
    }

    fn args(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.want("(")?;
        let mut v = vec![];
        while !self.is(")") {
            if self.eat("...") {
                v.push(N::bare("Spread", "", vec![self.assign(Ctx { i: true, ..c })?]));
            } else {
                v.push(self.assign(Ctx { i: true, ..c })?);
            }
            if !self.is(")") {
                self.want(",")?;
            }
        }
        self.want(")")?;
        Ok(self.mk("Args", s, "", v))
    }

    pub fn lhs(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let mut call = false;
        let mut bare_new = false;
        let mut e;
        if self.is_kw("super") && { let t = self.peek2(); t.k == K::P && t.v == "(" } {
            if !c.scall {
                return self.fail();
            }
            self.next();
            let a = self.args(c)?;
            e = self.mk("Call", s, "", vec![N::bare("SuperCallee", "", vec![]), a]);
            call = true;
        } else if self.is_kw("import") && { let t = self.peek2(); t.k == K::P && t.v == "(" } {
            self.next();
            let s2 = self.start();
            self.want("(")?;
            let x = self.assign(Ctx { i: true, ..c })?;
            self.want(")")?;
            let a = self.mk("Args", s2, "", vec![x]);
            e = self.mk("Call", s, "", vec![N::bare("ImportCallee", "", vec![]), a]);
            call = true;
        } else {
            let (m, b) = self.member_or_new(c)?;
            e = m;
            bare_new = b;
        }
        if bare_new {
            return Ok(e);
        }
        loop {
            let t = self.peek();
            if t.k == K::P && t.v == "(" {
                let a = self.args(c)?;
                e = self.mk("Call", s, "", vec![e, a]);
                call = true;
            } else if call && self.at_member_tail() {
                e = self.member_tail(c, s, e)?;
            } else {
                break;
            }
        }
        if !self.is("?.") {
            return Ok(e);
        }
        while self.is("?.") {
            self.next();
            let mut optional = "?.";
            loop {
                let t = self.peek();
                if t.k == K::P && t.v == "(" {
                    let a = self.args(c)?;
                    e = self.mk("OptCall", s, optional, vec![e, a]);
                } else if t.k == K::P && t.v == "[" {
                    self.next();
                    let x = self.expr(Ctx { i: true, ..c })?;
                    self.want("]")?;
                    e = self.mk("OptMem", s, format!("{optional}[]"), vec![e, x]);
                } else if optional == "?." {
                    if t.k != K::Name {
                        return self.fail();
                    }
                    let id = self.ident_name()?;
                    e = self.mk("OptMem", s, "?.", vec![e, id]);
                } else if t.k == K::P && t.v == "." {
                    self.next();
                    let id = self.ident_name()?;
                    e = self.mk("OptMem", s, "", vec![e, id]);
                } else if matches!(t.k, K::TplFull | K::TplHead) {
                    return self.fail();
                } else {
                    break;
                }
                optional = "";
            }
        }
        Ok(e)
    }

    fn at_member_tail(&mut self) -> bool {
        let t = self.peek();
        (t.k == K::P && (t.v == "." || t.v == "[")) || matches!(t.k, K::TplFull | K::TplHead)
    }

    fn member_tail(&mut self, c: Ctx, s: usize, obj: N) -> R<N> {
        let t = self.peek();
        if t.k == K::P && t.v == "." {
            self.next();
            let id = self.ident_name()?;
            Ok(self.mk("Mem", s, ".", vec![obj, id]))
        } else if t.k == K::P {
            self.next();
            let x = self.expr(Ctx { i: true, ..c })?;
            self.want("]")?;
            Ok(self.mk("Mem", s, "[]", vec![obj, x]))
        } else {
            let tpl = self.template(c)?;
            Ok(self.mk("Tagged", s, "", vec![obj, tpl]))
        }
    }

    /// MemberExpression or NewExpression; the flag tells a `new` without arguments.
    fn member_or_new(&mut self, c: Ctx) -> R<(N, bool)> {
        let s = self.start();
        let mut e;
        if self.is_kw("new") {
            let n = self.next();
            if self.eat(".") {
                let t = self.peek();
                if !(t.k == K::Name && !t.esc && t.v == "target") {
                    return self.fail();
                }
                let p = self.ident_name()?;
                e = self.mk("Meta", s, "", vec![N::new("Id", n.s, n.e, "new", vec![]), p]);
            } else {
                let (callee, bare) = self.member_or_new(c)?;
                let _ = bare;
                if self.is("(") {
                    let a = self.args(c)?;
                    e = self.mk("New", s, "", vec![callee, a]);
                } else {
                    return Ok((self.mk("New", s, "", vec![callee, N::hole()]), true));
                }
            }
        } else if self.is_kw("super") {
            let t = self.next();
            if !c.sprop || !(self.is(".") || self.is("[")) {
                return self.fail();
            }
            e = self.member_tail(c, s, N::new("Super", t.s, t.e, "", vec![]))?;
        } else if self.is_kw("import") {
            let n = self.next();
            self.want(".")?;
            let t = self.peek();
            if !(t.k == K::Name && !t.esc && t.v == "meta") {
                return self.fail();
            }
            let p = self.ident_name()?;
            e = self.mk("Meta", s, "", vec![N::new("Id", n.s, n.e, "import", vec![]), p]);
        } else {
            e = self.primary(c)?;
        }
        while self.at_member_tail() {
            e = self.member_tail(c, s, e)?;
        }
        Ok((e, false))
    }

    fn primary(&mut self, c: Ctx) -> R<N> {
        let t = self.peek();
        let s = t.s;
        match t.k {
            K::Name => {
                if !t.esc {
                    match t.v {
                        "this" => {
                            self.next();
                            return Ok(self.mk("This", s, "", vec![]));
                        }
                        "null" => {
                            self.next();
                            return Ok(self.mk("Null", s, "", vec![]));
                        }
                        "true" | "false" => {
                            self.next();
                            return Ok(self.mk("Bool", s, t.v, vec![]));
                        }
                        "function" => return self.function_expr(c),
                        "class" => return self.class(c, false),
                        "async" => {
                            let n = self.peek2();
                            if n.k == K::Name && !n.esc && n.v == "function" && !n.nl {
                                return self.function_expr(c);
                            }
                        }
                        _ => {}
                    }
                }
                self.ident(c)
            }
            K::Num => {
                self.next();
                Ok(self.mk("Num", s, t.v, vec![]))
            }
            K::Str => {
                self.next();
                Ok(self.mk("Str", s, Self::str_payload(&t), vec![]))
            }
            K::TplFull | K::TplHead => {
                let tpl = self.template(c)?;
                Ok(self.mk("Tpl", s, "", tpl.c))
            }
            K::P => match t.v {
                "(" => {
                    self.next();
                    let e = self.expr(Ctx { i: true, ..c })?;
                    self.want(")")?;
                    Ok(self.mk("Paren", s, "", vec![e]))
                }
                "[" => self.array(c),
                "{" => self.object(c),
                "/" | "/=" => {
                    let t = self.relex(Goal::RegExp);
                    if t.k == K::Regex {
                        self.next();
                        Ok(self.mk("Re", s, t.v, vec![]))
                    } else {
                        self.fail()
                    }
                }
                _ => self.fail(),
            },
            _ => self.fail(),
        }
    }

    /// Template parts as children of a range-less node.
    fn template(&mut self, c: Ctx) -> R<N> {
        let t = self.next();
        if t.k == K::TplFull {
            let text = &t.v[1..t.v.len() - 1];
            return Ok(N::bare("Parts", "", vec![N::bare("T", text, vec![])]));
        }
        let mut v = vec![];
        let text = &t.v[1..t.v.len() - 2];
        if !text.is_empty() {
            v.push(N::bare("T", text, vec![]));
        }
        loop {
            v.push(self.expr(Ctx { i: true, ..c })?);
            if !self.is("}") {
                return self.fail();
            }
            let t = self.relex(Goal::TemplateTail);
            match t.k {
                K::TplMiddle | K::TplTail => {
                    self.next();
                    let cut = if t.k == K::TplTail { 1 } else { 2 };
                    let text = &t.v[1..t.v.len() - cut];
                    if !text.is_empty() {
                        v.push(N::bare("T", text, vec![]));
                    }
                    if t.k == K::TplTail {
                        return Ok(N::bare("Parts", "", v));
                    }
                }
                _ => return self.fail(),
            }
        }
    }

    fn array(&mut self, c: Ctx) -> R<N> {
        let c = Ctx { i: true, ..c };
        let s = self.start();
        self.want("[")?;
        let mut v = vec![];
        loop {
            if self.eat("]") {
                break;
            }
            if self.eat(",") {
                v.push(N::hole());
                continue;
            }
            if self.eat("...") {
                v.push(N::bare("Spread", "", vec![self.assign(c)?]));
            } else {
                v.push(self.assign(c)?);
            }
            if !self.is("]") {
                self.want(",")?;
            }
        }
        Ok(self.mk("Arr", s, "", v))
    }

    fn prop_name(&mut self, c: Ctx) -> R<N> {
        let t = self.peek();
        match t.k {
            K::Name => self.ident_name(),
            K::Str => {
                self.next();
                Ok(N::bare("PStr", Self::str_payload(&t), vec![]))
            }
            K::Num => {
                self.next();
                Ok(N::bare("PNum", t.v, vec![]))
            }
            K::P if t.v == "[" => {
                self.next();
                let e = self.assign(Ctx { i: true, ..c })?;
                self.want("]")?;
                Ok(N::bare("PComp", "", vec![e]))
            }
            _ => self.fail(),
        }
    }

    fn starts_prop_name(t: &Tok) -> bool {
        matches!(t.k, K::Name | K::Str | K::Num) || (t.k == K::P && t.v == "[")
    }

    fn object(&mut self, c: Ctx) -> R<N> {
        let c = Ctx { i: true, ..c };
        let s = self.start();
        self.want("{")?;
        let mut v = vec![];
        while !self.is("}") {
            if self.eat("...") {
                v.push(N::bare("Spread", "", vec![self.assign(c)?]));
            } else {
                v.push(self.property(c)?);
            }
            if !self.is("}") {
                self.want(",")?;
            }
        }
        self.want("}")?;
        Ok(self.mk("Obj", s, "", v))
    }

    fn property(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        if let Some(m) = self.special_method(c, false, false)? {
            return Ok(m);
        }
        let t = self.peek();
        let sv = self.save();
        let n = self.prop_name(c)?;
        if self.eat(":") {
            let e = self.assign(c)?;
            return Ok(self.mk("Prop", s, "", vec![n, e]));
        }
        if self.is("(") {
            return self.method(c, s, n, "", false, false, false, false);
        }
        // Shorthand.
        if t.k == K::Name {
            self.restore(sv);
            let id = self.ident(c)?;
            if self.is(",") || self.is("}") {
                return Ok(N { k: "Short", ..id });
            }
        }
        self.fail()
    }

    /// Methods introduced by `*`, `get`, `set` or `async`.
    fn special_method(&mut self, c: Ctx, is_static: bool, derived: bool) -> R<Option<N>> {
        let _ = derived;
        let t = self.peek();
        let s = t.s;
        if t.k == K::P && t.v == "*" {
            self.next();
            let n = self.prop_name(c)?;
            return self.method(c, s, n, "", false, true, is_static, false).map(Some);
        }
        if t.k == K::Name && !t.esc && matches!(t.v, "get" | "set") {
            let n = self.peek2();
            if Self::starts_prop_name(&n) {
                self.next();
                let name = self.prop_name(c)?;
                let kind = if t.v == "get" { "get" } else { "set" };
                return self.method(c, s, name, kind, false, false, is_static, false).map(Some);
            }
        }
        if t.k == K::Name && !t.esc && t.v == "async" {
            let n = self.peek2();
            if !n.nl && (Self::starts_prop_name(&n) || (n.k == K::P && n.v == "*")) {
                self.next();
                let star = self.eat("*");
                let name = self.prop_name(c)?;
                return self.method(c, s, name, "", true, star, is_static, false).map(Some);
            }
        }
        Ok(None)
    }

    #[allow(clippy::too_many_arguments)]
    fn method(&mut self, c: Ctx, s: usize, name: N, kind: &str, is_async: bool, gen: bool, is_static: bool, ctor: bool) -> R<N> {
        let mc = Ctx { y: gen, a: is_async, i: true, r: false, sprop: true, scall: ctor, deflt: false, no_ya: gen || is_async, ..c };
        let params = self.params(mc)?;
        let n_params = params.c.iter().filter(|p| p.k == "BindEl").count();
        let has_rest = params.c.iter().any(|p| p.k == "Rest");
        match kind {
            "get" if n_params != 0 || has_rest => return self.fail(),
            "set" if n_params != 1 || has_rest => return self.fail(),
            _ => {}
        }
        if kind == "" {
            // UniqueFormalParameters
            let mut names = vec![];
            bound_names(&params, &mut names);
            names.sort();
            if names.windows(2).any(|w| w[0] == w[1]) {
                return self.fail();
            }
        }
        let body = self.body(Ctx { r: true, no_ya: false, ..mc })?;
        if has_use_strict(&body) && kind != "get" && !params.c.iter().all(|p| p.k == "BindEl" && p.c[0].k == "Id" && p.c[1].k == "-") {
            return self.fail();
        }
        let gen = gen || (self.quirks & Q_GEN != 0 && c.y && kind != "get" && !is_async);
        let t = format!("{}{}{}{}", kind, if is_static { "s" } else { "" }, if is_async { "a" } else { "" }, if gen { "*" } else { "" });
        Ok(self.mk("Method", s, t, vec![name, params, body]))
    }

    // ---------------------------------------------------------------- functions, classes
    /// `function` / `async function` expressions; current token is the first word.
    fn function_expr(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let is_async = self.eat_kw("async");
        self.want_kw("function")?;
        let gen = self.eat("*");
        let fc = Ctx { y: gen, a: is_async, i: true, r: false, sprop: false, scall: false, deflt: false, ..c };
        let id = if self.is("(") { N::hole() } else { self.ident(fc)? };
        self.function_rest("Fn", s, fc, id, is_async, gen)
    }

    fn function_decl(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let is_async = self.eat_kw("async");
        self.want_kw("function")?;
        let gen = self.eat("*");
        let id = if c.deflt && self.is("(") {
            let p = self.start();
            N::new("Id", p, p, "", vec![])
        } else {
            self.ident(c)?
        };
        let fc = Ctx { y: gen, a: is_async, i: true, r: false, sprop: false, scall: false, deflt: false, ..c };
        self.function_rest("FnDecl", s, fc, id, is_async, gen)
    }

    fn function_rest(&mut self, k: &'static str, s: usize, fc: Ctx, id: N, is_async: bool, gen: bool) -> R<N> {
        let params = self.params(Ctx { no_ya: gen || is_async, ..fc })?;
        let body = self.body(Ctx { r: true, no_ya: false, ..fc })?;
        let t = format!("{}{}", if is_async { "a" } else { "" }, if gen { "*" } else { "" });
        Ok(self.mk(k, s, t, vec![id, params, body]))
    }

    fn params(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.want("(")?;
        let mut v = vec![];
        loop {
            if self.eat(")") {
                break;
            }
            if self.eat("...") {
                v.push(N::bare("Rest", "", vec![self.binding_pattern(c)?]));
                self.want(")")?;
                break;
            }
            v.push(self.binding_element(c)?);
            if !self.is(")") {
                self.want(",")?;
            }
        }
        Ok(self.mk("Params", s, "", v))
    }

    /// `{ FunctionBody }` with its directives.
    fn body(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.want("{")?;
        let (dirs, strict) = self.directives(c)?;
        let c = Ctx { strict, i: true, ..c };
        let mut v = dirs;
        while !self.is("}") {
            v.push(self.stmt_item(c, false)?);
        }
        self.want("}")?;
        Ok(self.mk("Body", s, "", v))
    }

    fn directives(&mut self, c: Ctx) -> R<(Vec<N>, bool)> {
        let mut v = vec![];
        let mut strict = c.strict;
        loop {
            let t = self.peek();
            if t.k != K::Str {
                break;
            }
            let sv = self.save();
            let st = self.stmt_item(c, false)?;
            if st.k == "ExprStmt" && st.c[0].k == "Str" {
                let text = st.c[0].t.clone();
                if &text[1..] == "use strict" && t.v.len() == 12 {
                    strict = true;
                }
                v.push(N::bare("Dir", text, vec![]));
            } else {
                self.restore(sv);
                break;
            }
        }
        Ok((v, strict))
    }

    fn class(&mut self, c: Ctx, decl: bool) -> R<N> {
        let s = self.start();
        self.want_kw("class")?;
        let deflt = c.deflt;
        let c = Ctx { strict: true, deflt: false, i: true, ..c };
        let t = self.peek();
        let id = if decl {
            if deflt && ((t.k == K::P && t.v == "{") || (t.k == K::Name && !t.esc && t.v == "extends")) {
                N::new("Id", t.s, t.s, "", vec![])
            } else {
                self.ident(c)?
            }
        } else if t.k == K::Name && !(t.v == "extends" && !t.esc) {
            self.ident(c)?
        } else {
            N::hole()
        };
        let sup = if self.eat_kw("extends") { self.lhs(c)? } else { N::hole() };
        let derived = sup.k != "-";
        self.want("{")?;
        let mut v = vec![id, sup];
        loop {
            if self.eat("}") {
                break;
            }
            if self.eat(";") {
                continue;
            }
            v.push(self.class_element(c, derived)?);
        }
        Ok(self.mk(if decl { "ClassDecl" } else { "Class" }, s, "", v))
    }

    fn class_element(&mut self, c: Ctx, derived: bool) -> R<N> {
        let mut is_static = false;
        if self.is_kw("static") {
            let n = self.peek2();
            if !(n.k == K::P && n.v == "(") {
                self.next();
                is_static = true;
            }
        }
        if let Some(m) = self.special_method(c, is_static, derived)? {
            return Ok(m);
        }
        let s = self.start();
        let name = self.prop_name(c)?;
        let ctor = !is_static && derived
            && ((name.k == "Id" && name.t == "constructor") || (name.k == "PStr" && &name.t[1..] == "constructor"));
        self.method(c, s, name, "", false, false, is_static, ctor)
    }

    // ---------------------------------------------------------------- patterns
    fn binding_pattern(&mut self, c: Ctx) -> R<N> {
        let c = Ctx { i: true, ..c };
        let s = self.start();
        if self.eat("[") {
            let mut v = vec![];
            loop {
                if self.eat("]") {
                    break;
                }
                if self.eat(",") {
                    v.push(N::hole());
                    continue;
                }
                if self.eat("...") {
                    v.push(N::bare("Rest", "", vec![self.binding_pattern(c)?]));
                    self.want("]")?;
                    break;
                }
                v.push(self.binding_element(c)?);
                if !self.is("]") {
                    self.want(",")?;
                }
            }
            return Ok(self.mk("BArr", s, "", v));
        }
        if self.eat("{") {
            let mut v = vec![];
            loop {
                if self.eat("}") {
                    break;
                }
                if self.eat("...") {
                    v.push(N::bare("Rest", "", vec![self.binding_pattern(c)?]));
                    self.want("}")?;
                    break;
                }
                let s2 = self.start();
                let t = self.peek();
                let n = if t.k == K::Name { Some(self.peek2()) } else { None };
                if n.map_or(true, |n| n.k == K::P && n.v == ":") {
                    let name = self.prop_name(c)?;
                    self.want(":")?;
                    let el = self.binding_element(c)?;
                    v.push(self.mk("BNamed", s2, "", vec![name, el]));
                } else {
                    let id = self.bound(c)?;
                    let init = if self.eat("=") { self.assign(c)? } else { N::hole() };
                    v.push(self.mk("BSingle", s2, "", vec![id, init]));
                }
                if !self.is("}") {
                    self.want(",")?;
                }
            }
            return Ok(self.mk("BObj", s, "", v));
        }
        self.bound(c)
    }

    /// A bound name. The strict rule against binding `eval` and `arguments` is outside the properties.
    fn bound(&mut self, c: Ctx) -> R<N> {
        let id = self.ident(c)?;
        self.binds_eval |= c.strict && (id.t == "eval" || id.t == "arguments");
        Ok(id)
    }

    fn binding_element(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        let p = self.binding_pattern(c)?;
        let init = if self.eat("=") { self.assign(Ctx { i: true, ..c })? } else { N::hole() };
        Ok(self.mk("BindEl", s, "", vec![p, init]))
    }

    fn assign_pattern(&mut self, c: Ctx) -> R<N> {
        let c = Ctx { i: true, ..c };
        let s = self.start();
        if self.eat("[") {
            let mut v = vec![];
            loop {
                if self.eat("]") {
                    break;
                }
                if self.eat(",") {
                    v.push(N::hole());
                    continue;
                }
                if self.eat("...") {
                    v.push(N::bare("Rest", "", vec![self.assign_target(c)?]));
                    self.want("]")?;
                    break;
                }
                let s2 = self.start();
                let t = self.assign_target(c)?;
                let init = if self.eat("=") { self.assign(c)? } else { N::hole() };
                v.push(self.mk("AEl", s2, "", vec![t, init]));
                if !self.is("]") {
                    self.want(",")?;
                    if self.quirks & Q_ELIDE != 0 {
                        v.push(N::hole());
                    }
                }
            }
            return Ok(self.mk("AArr", s, "", v));
        }
        self.want("{")?;
        let mut v = vec![];
        loop {
            if self.eat("}") {
                break;
            }
            if self.eat("...") {
                v.push(N::bare("Rest", "", vec![self.assign_target(c)?]));
                self.want("}")?;
                break;
            }
            let s2 = self.start();
            let t = self.peek();
            let n = if t.k == K::Name { Some(self.peek2()) } else { None };
            if n.map_or(true, |n| n.k == K::P && n.v == ":") {
                let name = self.prop_name(c)?;
                self.want(":")?;
                let tg = self.assign_target(c)?;
                let init = if self.eat("=") { self.assign(c)? } else { N::hole() };
                v.push(self.mk("ANamed", s2, "", vec![name, tg, init]));
            } else {
                let id = self.ident(c)?;
                if c.strict && (id.t == "eval" || id.t == "arguments") {
                    return self.fail();
                }
                let init = if self.eat("=") { self.assign(c)? } else { N::hole() };
                v.push(self.mk("ASingle", s2, "", vec![id, init]));
            }
            if !self.is("}") {
                self.want(",")?;
            }
        }
        Ok(self.mk("AObj", s, "", v))
    }

    fn assign_target(&mut self, c: Ctx) -> R<N> {
        if self.is("[") || self.is("{") {
            let sv = self.save();
            if let Ok(p) = self.assign_pattern(c) {
                let t = self.peek();
                let continues = (t.k == K::P && matches!(t.v, "." | "[" | "(" | "?.")) || matches!(t.k, K::TplFull | K::TplHead);
                if !continues {
                    return Ok(p);
                }
            }
            self.restore(sv);
        }
        let e = self.lhs(c)?;
        if !simple_target(&e, c.strict) {
            return self.fail();
        }
        Ok(e)
    }

    // ---------------------------------------------------------------- statements
    fn program(&mut self, c: Ctx) -> R<N> {
        let s = if self.peek().k == K::Eof { 0 } else { self.start() };
        let (dirs, strict) = self.directives(c)?;
        let c = Ctx { strict, ..c };
        let mut v = dirs;
        while self.peek().k != K::Eof {
            v.push(self.stmt_item(c, true)?);
        }
        Ok(self.mk(if self.module { "Module" } else { "Script" }, s, "", v))
    }

    /// StatementListItem (ModuleItem when `top` and parsing a module).
    fn stmt_item(&mut self, c: Ctx, top: bool) -> R<N> {
        let t = self.peek();
        if t.k == K::Name && !t.esc {
            match t.v {
                "function" => return self.function_decl(c),
                "async" => {
                    let n = self.peek2();
                    if n.k == K::Name && !n.esc && n.v == "function" && !n.nl {
                        return self.function_decl(c);
                    }
                }
                "class" => return self.class(c, true),
                "const" => return self.variable(c, "const"),
                "let" if self.let_is_declaration(c) => return self.variable(c, "let"),
                "import" => {
                    let n = self.peek2();
                    if !(n.k == K::P && (n.v == "(" || n.v == ".")) {
                        if !(top && self.module) {
                            return self.fail();
                        }
                        return self.import_decl(c);
                    }
                }
                "export" => {
                    if !(top && self.module) {
                        return self.fail();
                    }
                    return self.export_decl(c);
                }
                _ => {}
            }
        }
        self.stmt(c)
    }

    /// Current token is `let`.
    fn let_is_declaration(&mut self, c: Ctx) -> bool {
        let n = self.peek2();
        if n.k == K::P {
            return n.v == "[" || n.v == "{";
        }
        if n.k != K::Name {
            return false;
        }
        let _ = c;
        let v = Self::name_value(&n);
        !is_reserved(&v)
    }

    fn variable(&mut self, c: Ctx, kind: &'static str) -> R<N> {
        let s = self.start();
        self.next();
        let mut v = self.declarations(Ctx { i: true, ..c }, kind)?;
        self.semicolon()?;
        let v = std::mem::take(&mut v);
        Ok(self.mk("Var", s, kind, v))
    }

    fn declarations(&mut self, c: Ctx, kind: &str) -> R<Vec<N>> {
        let mut v = vec![];
        loop {
            let s = self.start();
            let p = self.binding_pattern(c)?;
            if kind != "var" && binds_let(&p) {
                return self.fail();
            }
            let init = if self.eat("=") {
                self.assign(c)?
            } else {
                if p.k != "Id" {
                    return self.fail();
                }
                if kind == "const" {
                    self.unclaimed = true;
                }
                N::hole()
            };
            v.push(self.mk("Decl", s, "", vec![p, init]));
            if !self.eat(",") {
                return Ok(v);
            }
        }
    }

    fn block(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.want("{")?;
        let mut v = vec![];
        while !self.is("}") {
            v.push(self.stmt_item(c, false)?);
        }
        self.want("}")?;
        Ok(self.mk("Block", s, "", v))
    }

    fn paren_expr(&mut self, c: Ctx) -> R<N> {
        self.want("(")?;
        let e = self.expr(c)?;
        self.want(")")?;
        Ok(e)
    }

    pub fn stmt(&mut self, c: Ctx) -> R<N> {
        let c = Ctx { i: true, ..c };
        let t = self.peek();
        let s = t.s;
        if t.k == K::P {
            if t.v == ";" {
                self.next();
                return Ok(self.mk("Empty", s, "", vec![]));
            }
            if t.v == "{" {
                return self.block(c);
            }
        }
        if t.k == K::Name && !t.esc {
            match t.v {
                "var" => return self.variable(c, "var"),
                "if" => {
                    self.next();
                    let e = self.paren_expr(c)?;
                    let a = self.stmt(c)?;
                    let b = if self.eat_kw("else") { self.stmt(c)? } else { N::hole() };
                    return Ok(self.mk("If", s, "", vec![e, a, b]));
                }
                "while" => {
                    self.next();
                    let e = self.paren_expr(c)?;
                    let a = self.stmt(c)?;
                    return Ok(self.mk("While", s, "", vec![e, a]));
                }
                "do" => {
                    self.next();
                    let a = self.stmt(c)?;
                    self.want_kw("while")?;
                    let e = self.paren_expr(c)?;
                    self.eat(";");
                    return Ok(self.mk("DoWhile", s, "", vec![a, e]));
                }
                "with" => {
                    if c.strict {
                        return self.fail();
                    }
                    self.next();
                    let e = self.paren_expr(c)?;
                    let a = self.stmt(c)?;
                    return Ok(self.mk("With", s, "", vec![e, a]));
                }
                "for" => return self.for_stmt(c),
                "break" | "continue" => {
                    self.next();
                    let n = self.peek();
                    let label = if !n.nl && n.k == K::Name { self.ident(c)? } else { N::hole() };
                    self.semicolon()?;
                    return Ok(self.mk(if t.v == "break" { "Break" } else { "Continue" }, s, "", vec![label]));
                }
                "return" => {
                    if !c.r {
                        return self.fail();
                    }
                    self.next();
                    let n = self.peek();
                    let ends = n.nl || n.k == K::Eof || (n.k == K::P && (n.v == ";" || n.v == "}"));
                    let e = if ends { N::hole() } else { self.expr(c)? };
                    self.semicolon()?;
                    return Ok(self.mk("Return", s, "", vec![e]));
                }
                "throw" => {
                    self.next();
                    if self.peek().nl {
                        return self.fail();
                    }
                    let e = self.expr(c)?;
                    self.semicolon()?;
                    return Ok(self.mk("Throw", s, "", vec![e]));
                }
                "debugger" => {
                    self.next();
                    self.semicolon()?;
                    return Ok(self.mk("Debugger", s, "", vec![]));
                }
                "switch" => return self.switch(c),
                "try" => return self.try_stmt(c),
                "function" | "class" => {
                    // Annex B allows functions as bodies of `if` and of labels in sloppy code.
                    self.unclaimed |= t.v == "function" && !c.strict;
                    return self.fail();
                }
                "async" => {
                    let n = self.peek2();
                    if n.k == K::Name && !n.esc && n.v == "function" && !n.nl {
                        return self.fail();
                    }
                }
                "let" => {
                    let n = self.peek2();
                    if n.k == K::P && n.v == "[" {
                        return self.fail();
                    }
                }
                _ => {}
            }
        }
        if t.k == K::Name && self.is_ident_tok(&t, c) {
            let n = self.peek2();
            if n.k == K::P && n.v == ":" {
                let id = self.ident(c)?;
                self.want(":")?;
                let b = self.stmt(c)?;
                return Ok(self.mk("Labeled", s, "", vec![id, b]));
            }
        }
        let e = self.expr(c)?;
        self.semicolon()?;
        Ok(self.mk("ExprStmt", s, "", vec![e]))
    }

    fn switch(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.next();
        let e = self.paren_expr(c)?;
        self.want("{")?;
        let mut v = vec![e];
        let mut seen_default = false;
        loop {
            if self.eat("}") {
                break;
            }
            let s2 = self.start();
            let test = if self.eat_kw("case") {
                self.expr(c)?
            } else {
                if !self.is_kw("default") || seen_default {
                    return self.fail();
                }
                self.next();
                seen_default = true;
                N::hole()
            };
            self.want(":")?;
            let mut cv = vec![test];
            while !(self.is("}") || self.is_kw("case") || self.is_kw("default")) {
                cv.push(self.stmt_item(c, false)?);
            }
            v.push(self.mk("Case", s2, "", cv));
        }
        Ok(self.mk("Switch", s, "", v))
    }

    fn try_stmt(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.next();
        let b = self.block(c)?;
        let s2 = self.start();
        let h = if self.eat_kw("catch") {
            let p = if self.eat("(") {
                let p = self.binding_pattern(c)?;
                self.want(")")?;
                p
            } else {
                N::hole()
            };
            let b = self.block(c)?;
            self.mk("Catch", s2, "", vec![p, b])
        } else {
            N::hole()
        };
        let f = if self.eat_kw("finally") { self.block(c)? } else { N::hole() };
        if h.k == "-" && f.k == "-" {
            return self.fail();
        }
        Ok(self.mk("Try", s, "", vec![b, h, f]))
    }

    fn for_stmt(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.next();
        let for_await = c.a && !c.no_ya && self.eat_kw("await");
        self.want("(")?;
        let hs = self.start();
        let t = self.peek();
        let noin = Ctx { i: false, ..c };
        // Declarations.
        let kind = match t.v {
            _ if t.k != K::Name || t.esc => None,
            "var" => Some("var"),
            "const" => Some("const"),
            "let" if self.let_is_declaration(c) => Some("let"),
            _ => None,
        };
        if let Some(kind) = kind {
            let sv = self.save();
            self.next();
            if let Ok(p) = self.binding_pattern(c) {
                if kind != "var" && binds_let(&p) {
                    return self.fail();
                }
                if self.is_kw("of") || (self.is_kw("in") && !for_await) {
                    let left = self.mk("ForBind", hs, kind, vec![p]);
                    return self.for_in_of(c, s, left, for_await);
                }
            }
            self.restore(sv);
            if for_await {
                return self.fail();
            }
            self.next();
            let v = self.declarations(noin, kind)?;
            let init = self.mk("Var", hs, kind, v);
            return self.for_three(c, s, init);
        }
        // Target followed by in/of.
        let sv = self.save();
        let async_of = t.k == K::Name && !t.esc && t.v == "async" && {
            let n = self.peek2();
            n.k == K::Name && !n.esc && n.v == "of"
        };
        let starts_let = t.k == K::Name && !t.esc && t.v == "let";
        if starts_let && { let n = self.peek2(); n.k == K::P && n.v == "[" } {
            return self.fail();
        }
        if let Ok(left) = self.assign_target(c) {
            if self.is_kw("of") && !starts_let && (!async_of || for_await) {
                return self.for_in_of(c, s, left, for_await);
            }
            if self.is_kw("in") && !for_await {
                return self.for_in_of(c, s, left, for_await);
            }
            if for_await {
                return self.fail();
            }
        }
        self.restore(sv);
        if for_await {
            return Err(Fail);
        }
        let init = if self.is(";") { N::hole() } else { self.expr(noin)? };
        self.for_three(c, s, init)
    }

    fn for_in_of(&mut self, c: Ctx, s: usize, left: N, for_await: bool) -> R<N> {
        let is_of = self.is_kw("of");
        self.next();
        let right = if is_of { self.assign(c)? } else { self.expr(c)? };
        self.want(")")?;
        let b = self.stmt(c)?;
        if is_of {
            Ok(self.mk("ForOf", s, if for_await { "await" } else { "" }, vec![left, right, b]))
        } else {
            Ok(self.mk("ForIn", s, "", vec![left, right, b]))
        }
    }

    fn for_three(&mut self, c: Ctx, s: usize, init: N) -> R<N> {
        self.want(";")?;
        let test = if self.is(";") { N::hole() } else { self.expr(c)? };
        self.want(";")?;
        let upd = if self.is(")") { N::hole() } else { self.expr(c)? };
        self.want(")")?;
        let b = self.stmt(c)?;
        Ok(self.mk("For", s, "", vec![init, test, upd, b]))
    }

    // ---------------------------------------------------------------- modules
    fn module_specifier(&mut self) -> R<N> {
        let t = self.peek();
        if t.k != K::Str {
            return self.fail();
        }
        self.next();
        Ok(N::bare("From", Self::str_payload(&t), vec![]))
    }

    fn import_decl(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.next();
        if self.peek().k == K::Str {
            let f = self.module_specifier()?;
            self.semicolon()?;
            return Ok(self.mk("Import", s, "", vec![N::hole(), N::hole(), N::hole(), f]));
        }
        let t = self.peek();
        let (mut d, mut ns, mut named) = (N::hole(), N::hole(), N::hole());
        let mut more = true;
        if t.k == K::Name {
            d = self.ident(c)?;
            more = self.eat(",");
        }
        if more {
            if self.eat("*") {
                self.want_kw("as")?;
                ns = self.ident(c)?;
            } else {
                self.want("{")?;
                let mut v = vec![];
                while !self.is("}") {
                    let s2 = self.start();
                    let t = self.peek();
                    let n = self.ident_name()?;
                    let alias = if self.eat_kw("as") {
                        self.ident(c)?
                    } else {
                        if !self.is_ident_tok(&t, c) {
                            return self.fail();
                        }
                        N::hole()
                    };
                    v.push(self.mk("ImpSpec", s2, "", vec![n, alias]));
                    if !self.is("}") {
                        self.want(",")?;
                    }
                }
                self.want("}")?;
                named = N::bare("Named", "", v);
            }
        }
        self.want_kw("from")?;
        let f = self.module_specifier()?;
        self.semicolon()?;
        Ok(self.mk("Import", s, "", vec![d, ns, named, f]))
    }

    fn export_decl(&mut self, c: Ctx) -> R<N> {
        let s = self.start();
        self.next();
        let t = self.peek();
        if self.eat("*") {
            let alias = if self.eat_kw("as") { self.ident_name()? } else { N::hole() };
            self.want_kw("from")?;
            let f = self.module_specifier()?;
            self.semicolon()?;
            return Ok(self.mk("ExpNs", s, "", vec![alias, f]));
        }
        if self.eat("{") {
            let mut v = vec![];
            let mut local_ok = true;
            while !self.is("}") {
                let s2 = self.start();
                let t = self.peek();
                let mut n = self.ident_name()?;
                if !self.is_ident_tok(&t, c) {
                    local_ok = false;
                }
                let mut alias = N::hole();
                if self.eat_kw("as") {
                    alias = n;
                    n = self.ident_name()?;
                }
                v.push(self.mk("ExpSpec", s2, "", vec![n, alias]));
                if !self.is("}") {
                    self.want(",")?;
                }
            }
            self.want("}")?;
            let named = N::bare("Named", "", v);
            let f = if self.eat_kw("from") {
                self.module_specifier()?
            } else {
                // The repository's own snapshots accept reserved local names here.
                self.unclaimed |= !local_ok;
                N::hole()
            };
            self.semicolon()?;
            return Ok(self.mk("ExpNamed", s, "", vec![named, f]));
        }
        if t.k != K::Name || t.esc {
            return self.fail();
        }
        let async_fn = t.v == "async" && {
            let n = self.peek2();
            n.k == K::Name && !n.esc && n.v == "function" && !n.nl
        };
        if t.v == "default" {
            self.next();
            let t = self.peek();
            let async_fn = t.k == K::Name && !t.esc && t.v == "async" && {
                let n = self.peek2();
                n.k == K::Name && !n.esc && n.v == "function" && !n.nl
            };
            if async_fn || self.is_kw("function") {
                let d = self.function_decl(Ctx { deflt: true, ..c })?;
                return Ok(self.mk("ExpDefDecl", s, "", vec![d]));
            }
            if self.is_kw("class") {
                let d = self.class(Ctx { deflt: true, ..c }, true)?;
                return Ok(self.mk("ExpDefDecl", s, "", vec![d]));
            }
            let e = self.assign(c)?;
            self.semicolon()?;
            return Ok(self.mk("ExpDefExpr", s, "", vec![e]));
        }
        let d = match t.v {
            "var" => self.variable(c, "var")?,
            "const" => self.variable(c, "const")?,
            "let" => self.variable(c, "let")?,
            "function" => self.function_decl(c)?,
            "class" => self.class(c, true)?,
            "async" if async_fn => self.function_decl(c)?,
            _ => return self.fail(),
        };
        Ok(self.mk("ExpDecl", s, "", vec![d]))
    }
}

fn ident_params(id: N) -> N {
    let (s, e) = (id.s as usize, id.e as usize);
    N::new("Params", s, e, "", vec![N::new("BindEl", s, e, "", vec![id, N::hole()])])
}

fn simple_target(e: &N, strict: bool) -> bool {
    match e.k {
        "Id" => !(strict && (e.t == "eval" || e.t == "arguments")),
        "Mem" => true,
        "Paren" => simple_target(&e.c[0], strict),
        _ => false,
    }
}

/// Names bound by a parameter list or binding pattern.
fn binds_let(p: &N) -> bool {
    let mut names = vec![];
    bound_names(p, &mut names);
    names.iter().any(|n| n == "let")
}

pub fn bound_names(n: &N, out: &mut Vec<String>) {
    match n.k {
        "Id" => out.push(n.t.clone()),
        "Params" | "BArr" | "BObj" | "Rest" => n.c.iter().for_each(|c| bound_names(c, out)),
        "BindEl" | "BSingle" => bound_names(&n.c[0], out),
        "BNamed" => bound_names(&n.c[1], out),
        _ => {}
    }
}

fn has_use_strict(body: &N) -> bool {
    body.c.iter().any(|d| d.k == "Dir" && &d.t[1..] == "use strict")
}
