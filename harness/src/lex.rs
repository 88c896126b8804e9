//! The lexer against the reference lexical grammar, on every string over an alphabet.
use crate::check::Run;
use crate::engine::Obs;
use crate::grammar::short_end;
use crate::imp;
use crate::reflex::{self, Goal, Tok, K};
use crate::strings;
use fajt_ast::{Literal, TemplatePart};
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::{Lexer, LexerState};

/// What a token is, apart from its place.
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub kind: &'static str,
    pub value: String,
    pub s: usize,
    pub e: usize,
    pub first: bool,
}

pub fn of_token(t: &Token) -> T {
    let (kind, value) = match &t.value {
        TokenValue::Keyword(k) => ("name", k.to_string()),
        TokenValue::Identifier(s) => ("name", s.clone()),
        TokenValue::Punctuator(p) => ("punct", p.to_string()),
        TokenValue::Literal(l) => match l {
            Literal::Null => ("name", "null".into()),
            Literal::Boolean(b) => ("name", b.to_string()),
            Literal::Number(n) => ("number", n.raw.clone()),
            Literal::String(s) => ("string", format!("{}{}", s.delimiter, s.value)),
            Literal::Regexp(s) => ("regex", s.clone()),
            Literal::Template(t) => match t.parts.as_slice() {
                [TemplatePart::String(s)] => ("template", s.clone()),
                _ => ("template", "not one text part".into()),
            },
            _ => ("?", String::new()),
        },
        TokenValue::TemplateHead(s) => ("head", s.clone()),
        TokenValue::TemplateMiddle(s) => ("middle", s.clone()),
        TokenValue::TemplateTail(s) => ("tail", s.clone()),
    };
    T { kind, value, s: t.span.start, e: t.span.end, first: t.first_on_line }
}

/// The reference token in the same form; `Err(true)`: no value is claimed (lone surrogate).
pub fn of_ref(t: &Tok, first: bool) -> Option<T> {
    let cut = |a: usize, b: usize| t.v[a..t.v.len() - b].to_string();
    let (kind, value) = match t.k {
        K::Name => ("name", reflex::unescape_name(t.v)),
        K::P => ("punct", t.v.to_string()),
        K::Num => ("number", t.v.to_string()),
        K::Str => ("string", format!("{}{}", &t.v[..1], reflex::string(t.v).unwrap().1?)),
        K::Regex => ("regex", t.v.to_string()),
        K::TplFull => ("template", cut(1, 1)),
        K::TplHead => ("head", cut(1, 2)),
        K::TplMiddle => ("middle", cut(1, 2)),
        K::TplTail => ("tail", cut(1, 1)),
        K::Eof | K::Bad => return None,
    };
    Some(T { kind, value, s: t.s, e: t.e, first })
}

/// All tokens of a text read with the division goal, and whether it ends well.
pub fn model_all(src: &str, module: bool) -> (Vec<(Option<T>, Tok<'_>)>, bool) {
    let mut v = vec![];
    let mut pos = 0;
    loop {
        let t = reflex::lex(src, pos, Goal::Div, module);
        match t.k {
            K::Eof => return (v, true),
            K::Bad => return (v, false),
            _ => {}
        }
        let first = t.nl || pos == 0;
        pos = t.e;
        v.push((of_ref(&t, first), t));
    }
}

fn state(goal: Goal, module: bool) -> LexerState {
    match goal {
        Goal::Div => LexerState::default(),
        Goal::RegExp => LexerState::regex_allowed(),
        Goal::TemplateTail => LexerState::inside_template(),
    }
    .with_html_comments_allowed(!module)
}

fn read_all(src: &str, module: bool) -> Result<(Vec<T>, bool), String> {
    imp::guard(|| {
        let Ok(mut l) = Lexer::new(src) else { return (vec![], false) };
        l.set_state(state(Goal::Div, module));
        let mut v = vec![];
        loop {
            match l.read() {
                // Each token has a character at least.
                Ok(_) if v.len() > src.len() => panic!("more tokens than characters"),
                Ok(t) => v.push(of_token(&t)),
                Err(e) => return (v, *e.kind() == fajt_lexer::error::ErrorKind::EndOfStream),
            }
        }
    })
}

#[derive(Clone, Copy, PartialEq)]
pub enum See {
    /// Kinds, values and verdict.
    Values,
    Ranges,
    Lines,
}

fn entry(module: bool) -> &'static str {
    if module {
        "module"
    } else {
        "script"
    }
}

/// Every token of the text.
pub fn all(o: &mut Obs, src: &str, module: bool, see: See) {
    let (want, well) = model_all(src, module);
    o.start(entry(module), src);
    let got = read_all(src, module);
    o.done();
    o.counts.replays += 1;
    let (got, end) = match got {
        Ok(x) => x,
        Err(p) => return o.violation(entry(module), src, format!("panic: {p}")),
    };
    if well {
        o.counts.accepted += 1;
        o.sample(src);
    } else {
        o.counts.rejected += 1;
    }
    let mut bad = |what: String| o.violations.push(crate::engine::Violation { world: o.world.clone(), entry: entry(module).into(), src: src.into(), what });
    if see == See::Values {
        if end != well {
            return bad(format!("{} after {} tokens; expected {}", if end { "end" } else { "error" }, got.len(), if well { format!("{} tokens", want.len()) } else { format!("an error after {}", want.len()) }));
        }
        if want.len() != got.len() {
            return bad(format!("{} tokens, expected {}: {got:?}", got.len(), want.len()));
        }
    }
    let mut known = false;
    for (i, (w, raw)) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { break };
        match see {
            See::Values => {
                let Some(w) = w else { continue };
                if (w.kind, &w.value) != (g.kind, &g.value) {
                    return bad(format!("token {i} is {} {:?}, expected {} {:?}", g.kind, g.value, w.kind, w.value));
                }
            }
            See::Ranges => {
                if g.s != raw.s || (g.e != raw.e && g.e != short_end(src, raw.e)) {
                    return bad(format!("token {i} is at {}:{}, expected {}:{}", g.s, g.e, raw.s, raw.e));
                }
                if g.e != raw.e {
                    known = true;
                    continue;
                }
                // The text of the range on its own is the same token.
                let part = &src[g.s..g.e];
                match read_all(part, module) {
                    Ok((ts, true)) if ts.len() == 1 && (ts[0].kind, &ts[0].value) == (g.kind, &g.value) && (ts[0].s, ts[0].e) == (0, part.len()) => {}
                    other => return bad(format!("the text of token {i}, {part:?}, reads as {other:?}")),
                }
            }
            See::Lines => {
                let first = raw.nl || i == 0;
                if g.first != first {
                    return bad(format!("token {i} ({:?}) first on its line: {}, expected {first}", raw.v, g.first));
                }
                if g.s != raw.s {
                    return bad(format!("token {i} starts at {}, expected {}", g.s, raw.s));
                }
            }
        }
    }
    if see == See::Lines && (end != well || want.len() != got.len()) {
        return bad(format!("{} tokens and {}, expected {} and {}", got.len(), if end { "the end" } else { "an error" }, want.len(), if well { "the end" } else { "an error" }));
    }
    if known {
        o.counts.known("non-ascii-end", src);
    }
}

/// The first token of the text under a goal.
pub fn first(o: &mut Obs, src: &str, goal: Goal, module: bool) {
    let want = reflex::lex(src, 0, goal, module);
    let name = match goal {
        Goal::Div => "div",
        Goal::RegExp => "regexp",
        Goal::TemplateTail => "template",
    };
    o.start(name, src);
    let got = imp::guard(|| {
        let mut l = Lexer::new(src).ok()?;
        l.set_state(state(goal, module));
        let first = l.read().ok()?;
        // What follows is read with the same reader and the usual goal.
        l.set_state(state(Goal::Div, module));
        let next = l.read().map(|t| of_token(&t)).ok();
        Some((of_token(&first), next))
    });
    o.done();
    o.counts.replays += 1;
    let got = match got {
        Ok(g) => g,
        Err(p) => return o.violation(name, src, format!("panic: {p}")),
    };
    let want_t = of_ref(&want, goal != Goal::TemplateTail);
    match (want_t, got) {
        (None, None) => o.counts.rejected += 1,
        (Some(w), Some((mut g, next))) => {
            o.counts.accepted += 1;
            o.sample(src);
            if g.e == short_end(src, w.e) {
                g.e = w.e;
            }
            if w != g {
                return o.violation(name, src, format!("token {g:?}, expected {w:?}"));
            }
            let after = reflex::lex(src, want.e, Goal::Div, module);
            let want_next = of_ref(&after, after.nl);
            let next = next.map(|mut t| {
                if t.e == short_end(src, after.e) {
                    t.e = after.e;
                }
                t
            });
            if want_next != next && !(after.k == K::Str && want_next.is_none()) {
                o.violation(name, src, format!("next token {next:?}, expected {want_next:?}"));
            }
        }
        (None, Some((g, _))) if want.k != K::Str => o.violation(name, src, format!("token {g:?}, expected none")),
        (Some(w), None) => o.violation(name, src, format!("no token, expected {w:?}")),
        _ => o.counts.unclaimed += 1,
    }
}

const PUNCTUATION: &[&str] = &[
    "{", "}", "(", "[", ".", ";", ",", "<", ">", "=", "!", "+", "-", "*", "/", "%", "&", "|", "^", "~", "?", ":", "a", "0", "\n", " ", "#", "@", "\\", "'", "`", "$",
];
const WORDS: &[&str] = &[
    "a", "e", "f", "i", "n", "l", "s", "t", "u", "w", "_", "$", "1", "\u{e9}", "\u{4e2d}", "\u{1d49c}", "\u{200d}", "\\u0061", "\\u{62}", "\\u0031", "\\u{2d}", "\\", " ", ".",
];
const KEYWORDS: &[&str] = &[
    "await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends",
    "false", "finally", "for", "from", "function", "get", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "of", "package",
    "private", "protected", "public", "return", "set", "static", "super", "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while",
    "with", "yield", "arguments", "eval", "undefined", "constructor", "1", " ", ".", "\\u0061", "\u{e9}", "$",
];
const NUMBERS: &[&str] = &["0", "1", "7", "9", ".", "_", "e", "E", "+", "-", "x", "X", "o", "b", "a", "n", "$", " ", "\\u0061", "\u{e9}"];
const NUMBERS_DEEP: &[&str] = &["0", "1", "8", ".", "_", "e", "-", "x", "a", "b"];
const STRINGS: &[&str] = &["'", "\"", "\\", "\n", "\r", "\u{2028}", "n", "x", "u", "{", "}", "0", "1", "4", "8", "a", "f", "\u{e9}", "\u{1d49c}"];
const STRINGS_DEEP: &[&str] = &["'", "\\", "\r", "\n", "\\x", "\\u", "\\u{", "}", "0", "3", "7", "a", "D83", "DE0", "\\uD83D", "\u{4e2d}", "g"];
const ESCAPES: &[&str] = &["\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\0", "\\1", "\\7", "\\8", "\\a", "\\c", "\\x", "\\u", "\\'", "\\\"", "\\\\", "\\\n", "\\\r", "\\\r\n", "\\\u{2028}", "\\\u{2029}", "\\\u{e9}", "4", "41", "{41}", "'"];
const TEMPLATES: &[&str] = &["`", "$", "{", "}", "\\", "a", "\n", "\r", "'", "/", "\u{2028}", "\u{e9}"];
const REGEXES: &[&str] = &["/", "\\", "[", "]", "a", "g", "\n", "\r", "\u{2028}", "\u{2029}", "*", "(", "=", "\u{e9}", "\\u0061", "0"];
const LAYOUT: &[&str] = &["/", "*", "<", "!", "-", ">", "a", "\n", "\r", "\u{2028}", " ", "<!--", "-->"];
const LAYOUT_WIDE: &[&str] = &["//", "/*", "*/", "*", "<!--", "-->", "--", "a", "\n", "\r", "\u{2028}", "\u{2029}", "\t", "\u{b}", "\u{a0}", "\u{feff}", "\u{3000}", "\u{e9}", "`", "1"];
const RANGES: &[&str] = &["a", "\u{e9}", "\u{4e2d}", "\u{1d49c}", "1", "'", "\\", "`", "+", "=", ".", "/", "*", "\n", "\r", "\u{2028}", "\u{feff}", " ", "\\u0061"];

pub fn l01(run: &mut Run) {
    let both = |o: &mut Obs, s: &str| {
        all(o, s, false, See::Values);
        all(o, s, true, See::Values);
    };
    let n = run.pick(5, 6);
    strings::explore(run, "punctuators", PUNCTUATION, n, both);
    let n = run.pick(5, 6);
    strings::explore(run, "words", WORDS, n, |o, s| all(o, s, false, See::Values));
    let n = run.pick(3, 4);
    strings::explore(run, "keywords", KEYWORDS, n, |o, s| all(o, s, false, See::Values));
    let n = run.pick(10, 12);
    strings::explore(run, "long escapes", &["0", "1", "F"], n, |o, s| all(o, &format!("a\\u{{{s}}}"), false, See::Values));
    letters(run);
    characters(run);
    lengths(run, "lengths", &[("a@", "b"), ("a@ c", "\u{4e2d}"), ("@", "\u{1d49c}"), ("a@=b", "\\u0061"), ("\\u{@61}b", "0"), ("@", "+"), ("@=", ">"), ("@", "."), ("@", "?"), ("i@", "n"), ("@a", "\u{feff}"), ("/*@*/a", "*")], both);
}

/// Every character, alone, inside and at the end of a name, raw and escaped.
fn characters(run: &mut Run) {
    let blocks: Vec<u32> = (0..0x110).map(|b| b << 12).collect();
    run.each("characters", "every Unicode character, alone, after and before a letter, raw and escaped", &blocks, |o, &b| {
        for c in b..b + 0x1000 {
            let raw = char::from_u32(c).map(|c| [format!("{c}"), format!("a{c}"), format!("{c}a"), format!("1{c}")]);
            let escaped = [format!("\\u{{{c:x}}}"), format!("a\\u{{{c:x}}}b")];
            for s in raw.iter().flatten().chain(&escaped) {
                o.counts.states += 1;
                o.counts.transitions += 1;
                all(o, s, false, See::Values);
            }
        }
    });
}

/// Every character at a place of a text (`@`).
fn everywhere(run: &mut Run, what: &str, forms: &[&str], f: impl Fn(&mut Obs, &str) + Sync) {
    let blocks: Vec<u32> = (0..0x110).map(|b| b << 12).collect();
    run.each(what, &format!("every Unicode character as the `@` of {}", forms.join("  ")), &blocks, |o, &b| {
        for c in (b..b + 0x1000).filter_map(char::from_u32) {
            for form in forms {
                o.counts.states += 1;
                o.counts.transitions += 1;
                f(o, &form.replace('@', c.encode_utf8(&mut [0; 4])));
            }
        }
    });
}

/// Lexemes of every length up to 300 and around the powers of two: `@` in the first text stands for the
/// repetitions of the second.
fn lengths(run: &mut Run, what: &str, forms: &[(&str, &str)], f: impl Fn(&mut Obs, &str) + Sync) {
    let top = run.pick(16, 18);
    let counts: Vec<usize> = (0..=300).chain((9..=top).flat_map(|k| (1 << k) - 1..=(1 << k) + 1)).collect();
    let items: Vec<(usize, usize)> = (0..forms.len()).flat_map(|i| (0..16).map(move |j| (i, j))).collect();
    run.each(what, &format!("{} kinds of lexeme, of every length up to 300 and around powers of two up to 2^{top}", forms.len()), &items, |o, &(i, j)| {
        for n in counts.iter().skip(j).step_by(16) {
            o.counts.states += 1;
            o.counts.transitions += 1;
            f(o, &forms[i].0.replace('@', &forms[i].1.repeat(*n)));
        }
    });
}

/// Every ASCII string up to a length.
fn letters(run: &mut Run) {
    let items: Vec<char> = (1..=0x7fu32).filter_map(char::from_u32).collect();
    let n = run.pick(3, 3);
    run.each("ASCII", &format!("all strings of 1 to {n} ASCII characters"), &items, |o, &a| {
        let mut go = |s: String| {
            o.counts.states += 1;
            o.counts.transitions += 1;
            all(o, &s, false, See::Values);
        };
        go(a.to_string());
        for b in (1..=0x7fu32).filter_map(char::from_u32) {
            go(format!("{a}{b}"));
            if n > 2 {
                for c in (1..=0x7fu32).filter_map(char::from_u32) {
                    go(format!("{a}{b}{c}"));
                }
            }
        }
    });
}

pub fn l02(run: &mut Run) {
    everywhere(run, "characters", &["a@b", "@", "'@' a", "\u{e9}@ `", "\\u0061@"], |o, s| all(o, s, false, See::Ranges));
    let n = run.pick(6, 6);
    strings::explore(run, "ranges", RANGES, n, |o, s| all(o, s, false, See::Ranges));
    let n = run.pick(4, 5);
    strings::explore(run, "punctuators", PUNCTUATION, n, |o, s| all(o, s, false, See::Ranges));
    let n = run.pick(5, 6);
    strings::explore(run, "layout", LAYOUT_WIDE, n, |o, s| all(o, s, false, See::Ranges));
    strings::explore(run, "strings", STRINGS, n, |o, s| all(o, &format!("\u{1d49c} '{s}"), false, See::Ranges));
    lengths(
        run,
        "lengths",
        &[("a@ b", "c"), ("a @ b", "\u{4e2d}"), ("'@' b", "\u{1d49c}"), ("\"@\" b", "\\\u{2028}"), ("1@ a", "0"), ("`@` a", "\n"), ("/*@*/a /**/ b", "\u{e9}"), ("@a", "\u{3000}"), ("\\u{@61} b", "0"), ("//@\na", "/"), ("@a", "\r\n"), ("@a", "b ")],
        |o, s| all(o, s, false, See::Ranges),
    );
}

pub fn l03(run: &mut Run) {
    everywhere(run, "characters", &["1@", "0x1@1", "1_@", "1.@", "1e@", "0@7", "0b1@"], |o, s| all(o, s, false, See::Values));
    let n = run.pick(5, 6);
    strings::explore(run, "numbers", NUMBERS, n, |o, s| {
        for first in ["0", "1", "9", "."] {
            let src = format!("{first}{s}");
            all(o, &src, false, See::Values);
            if src.is_ascii() {
                all(o, &src, false, See::Ranges);
            }
        }
    });
    let n = run.pick(6, 7);
    strings::explore(run, "numbers-deep", NUMBERS_DEEP, n, |o, s| {
        for first in ["0", "1", "."] {
            all(o, &format!("{first}{s}"), false, See::Values);
        }
    });
    lengths(
        run,
        "lengths",
        &[("1@", "0"), ("0x@", "f"), ("0b@", "1"), ("0o@", "7_7"), ("1.@", "5"), ("1e@", "9"), (".0@e-1", "0"), ("1@", "_1"), ("1@_", "2"), ("0@", "0"), ("0x@", "1_"), ("1@a", "1"), ("1e+1@.", "1")],
        |o, s| all(o, s, false, See::Values),
    );
    // After a sign or a dot, and before every ASCII character.
    let items: Vec<char> = (0..=0x7fu32).filter_map(char::from_u32).collect();
    run.each("after numbers", "literals followed by every ASCII character and digit", &items, |o, &c| {
        for lit in ["0", "1", "10", "1.", ".1", "1.1", "1e1", "1E+1", "1e-1", "0x1", "0Xa", "0o7", "0B1", "1_1", "0x_1", "1_", "0b2", "0o8", "1e", "0x", "00", "01", "08", "0_1", "1.e1", ".1e1", "1._1", "1_.1", "1e_1"] {
            for tail in ["", "1", "_", "e1", "."] {
                o.counts.states += 1;
                o.counts.transitions += 1;
                all(o, &format!("{lit}{c}{tail}"), false, See::Values);
                all(o, &format!("-{lit}{tail}{c}"), false, See::Values);
            }
        }
    });
}

pub fn l04(run: &mut Run) {
    lengths(
        run,
        "lengths",
        &[("'@'", "a"), ("\"@\"", "\\n"), ("'\\u{@61}'", "0"), ("'\\u{@}'", "1"), ("'a\\u{1@}'", "0"), ("'@", "b"), ("'@\n'", "'\\"), ("'@'", "\\\r\n"), ("'@'", "\\1"), ("'@8'", "\\0"), ("'@'", "\\uD83D\\uDE00"), ("'@'", "\u{1d49c}")],
        |o, s| all(o, s, false, See::Values),
    );
    let n = run.pick(12, 13);
    strings::explore(run, "long escapes", &["0", "1", "F"], n, |o, s| all(o, &format!("'\\u{{{s}}}'"), false, See::Values));
    everywhere(run, "characters", &["'@'", "\"@", "'\\@'", "'a\\@0\"'", "'\\x4@'", "'\\u{@}'"], |o, s| all(o, s, false, See::Values));
    let blocks: Vec<u32> = (0..0x111).map(|b| b << 12).collect();
    run.each("code points", "every code point, and some beyond the last, as \\u and \\u{}", &blocks, |o, &b| {
        for c in b..b + 0x1000 {
            for s in [(c < 0x10000).then(|| format!("'\\u{c:04x}'")), Some(format!("'\\u{{{c:X}}}'"))].iter().flatten() {
                o.counts.states += 1;
                o.counts.transitions += 1;
                all(o, s, false, See::Values);
            }
        }
    });
    let n = run.pick(6, 6);
    strings::explore(run, "strings", STRINGS, n, |o, s| {
        all(o, &format!("'{s}"), false, See::Values);
        all(o, &format!("\"{s}"), false, See::Values);
    });
    let n = run.pick(5, 7);
    strings::explore(run, "escapes-deep", STRINGS_DEEP, n, |o, s| all(o, &format!("'{s}'"), false, See::Values));
    let n = run.pick(4, 5);
    strings::explore(run, "escapes", ESCAPES, n, |o, s| all(o, &format!("'{s}'"), false, See::Values));
    // Every single escape, and every character on its own.
    let items: Vec<u32> = (0..0x300).chain([0x1680, 0x2000, 0x2028, 0x2029, 0x202f, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff]).collect();
    run.each("one escape", "every character below U+0300 (and some above) raw, escaped, and as \\x, \\u and \\u{}", &items, |o, &c| {
        let forms = [
            char::from_u32(c).map(|c| c.to_string()),
            char::from_u32(c).map(|c| format!("\\{c}")),
            (c < 256).then(|| format!("\\x{c:02x}")),
            (c < 0x10000).then(|| format!("\\u{c:04X}")),
            Some(format!("\\u{{{c:x}}}")),
            Some(format!("\\u{{000{c:X}}}")),
            (c < 0x200).then(|| format!("\\{c:o}")),
        ];
        for f in forms.iter().flatten() {
            for (a, b) in [("'", "'"), ("\"", "\""), ("'a", "0'"), ("'\u{e9}", "8'")] {
                o.counts.states += 1;
                o.counts.transitions += 1;
                all(o, &format!("{a}{f}{b}"), false, See::Values);
            }
        }
    });
}

pub fn l05(run: &mut Run) {
    lengths(run, "template lengths", &[("`@`", "a"), ("`@${", "$"), ("`@`", "\\\\"), ("`@`", "\\`"), ("`@`", "{"), ("`@", "\r\n"), ("`@`", "\u{1d49c}")], |o, s| first(o, s, Goal::Div, false));
    lengths(run, "template tail lengths", &[("}@`", "}"), ("}@${", "\\${")], |o, s| first(o, s, Goal::TemplateTail, false));
    lengths(run, "regex lengths", &[("/@/", "a"), ("/a/@", "g"), ("/[@]/", "/"), ("/@/", "\\/"), ("/@/", "[]]"), ("/[@]/", "[\\]"), ("/@\n/", "\u{4e2d}")], |o, s| first(o, s, Goal::RegExp, false));
    everywhere(run, "template characters", &["`@`", "`\\@`", "`$@`", "`a@${"], |o, s| first(o, s, Goal::Div, false));
    everywhere(run, "template tail characters", &["}@`", "}\\@${"], |o, s| first(o, s, Goal::TemplateTail, false));
    everywhere(run, "regex characters", &["/@/", "/\\@/", "/[@]/", "/[\\@/]/", "/a/@", "/a/g@"], |o, s| first(o, s, Goal::RegExp, false));
    let n = run.pick(6, 7);
    strings::explore(run, "templates", TEMPLATES, n, |o, s| {
        first(o, &format!("`{s}"), Goal::Div, false);
        first(o, &format!("}}{s}"), Goal::TemplateTail, false);
    });
    let n = run.pick(5, 6);
    strings::explore(run, "regexes", REGEXES, n, |o, s| {
        first(o, &format!("/{s}"), Goal::RegExp, false);
        first(o, &format!("/{s}/"), Goal::RegExp, true);
    });
    // In the tree, where the parser chooses the goals.
    let n = run.pick(5, 6);
    strings::explore(run, "templates-parsed", TEMPLATES, n, |o, s| {
        use crate::{grammar, refjs};
        for src in [format!("`{s}`"), format!("a`{s}`b")] {
            let r = refjs::parse_mode(&src, refjs::Entry::Script, false);
            grammar::compare_at(o, &src, refjs::Entry::Script, false, &r, &grammar::Mode::Shape);
        }
    });
    let n = run.pick(5, 6);
    strings::explore(run, "regexes-parsed", REGEXES, n, |o, s| {
        use crate::{grammar, refjs};
        for (src, module) in [(format!("/{s}/"), false), (format!("(/{s}/g"), false), (format!("a=/{s}"), true)] {
            let e = if module { refjs::Entry::Module } else { refjs::Entry::Script };
            let r = refjs::parse_mode(&src, e, module);
            grammar::compare_at(o, &src, e, module, &r, &grammar::Mode::Shape);
        }
    });
}

pub fn l06(run: &mut Run) {
    let both = |o: &mut Obs, s: &str| {
        all(o, s, false, See::Lines);
        all(o, s, true, See::Lines);
    };
    let n = run.pick(6, 7);
    strings::explore(run, "layout", LAYOUT, n, both);
    everywhere(run, "characters", &["a@b", "@", "a//@b", "a/*@*/b", "a/*/@/b", "a/@/b", "a<!-@-b", "a<!--@b", "a\n@-->b", "/**/@-->b"], both);
    let n = run.pick(5, 6);
    strings::explore(run, "layout-wide", LAYOUT_WIDE, n, both);
    lengths(run, "lengths", &[("a@b", " "), ("a@b", "\n"), ("a@b", "/**/"), ("a/*@*/b", "*"), ("a/*@*/b", "\n"), ("a//@\nb", "a"), ("a@b", "//\r"), ("a<!--@\nb", "-"), ("a\n@-->", "\u{feff}"), ("a@", "\n-->a"), ("a/*@", "*"), ("@a", "\u{2028}\u{a0}")], both);
}

pub fn case(o: &mut Obs, entry: &str, src: &str, see: Option<See>) {
    use crate::{check, grammar, refjs};
    match entry {
        "div" => first(o, src, Goal::Div, false),
        "regexp" => first(o, src, Goal::RegExp, false),
        "template" => first(o, src, Goal::TemplateTail, false),
        _ => match see {
            Some(see) => {
                all(o, src, entry == "module", see);
            }
            None => {
                let (e, m) = check::entry_of(entry);
                let r = refjs::parse_mode(src, e, m);
                grammar::compare_at(o, src, e, m, &r, &grammar::Mode::Shape);
            }
        },
    }
}
