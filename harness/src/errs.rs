//! Parsing always returns, and what it says about a rejected text.
use crate::check::{entry_of, Run};
use crate::engine::{Obs, World};
use crate::grammar::{entry_name, short_end};
use crate::imp::{self, Imp};
use crate::refjs::Entry;
use crate::{strings, terms};
use fajt_parser::error::emitter::ErrorEmitter;
use fajt_lexer::token::Token;
use fajt_lexer::Lexer;
use fajt_parser::error::{Error, ErrorKind};

const FILE: &str = "dir/f.js";

fn render(src: &str, e: &Error) -> Result<String, String> {
    imp::guard(|| {
        let mut out = vec![];
        ErrorEmitter::new(FILE, src, &mut out).emit_error(e).map_err(|e| e.to_string())?;
        String::from_utf8(out).map_err(|e| e.to_string())
    })?
}

/// Parses and renders; any panic is a violation.
pub fn total(o: &mut Obs, src: &str, entry: Entry, module: bool) {
    o.start(name(entry, module), src);
    let r = imp::parse(src, entry, module);
    let bad = match &r {
        Imp::Tree(_) => {
            o.counts.accepted += 1;
            None
        }
        Imp::Rejected(e) => {
            o.counts.rejected += 1;
            match imp::guard(|| e.to_string()) {
                Ok(_) => render(src, e).err().map(|e| format!("rendering the error: {e}")),
                Err(e) => Some(format!("displaying the error: {e}")),
            }
        }
        Imp::Panicked(p) => Some(format!("panic: {p}")),
    };
    o.done();
    o.counts.replays += 1;
    if let Some(b) = bad {
        o.violation(name(entry, module), src, b);
    }
}

fn name(e: Entry, module: bool) -> &'static str {
    match (e, module) {
        (Entry::Expr, true) => "expr-module",
        (Entry::Stmt, true) => "stmt-module",
        _ => entry_name(e),
    }
}

const MODES: [(Entry, bool); 6] =
    [(Entry::Script, false), (Entry::Module, true), (Entry::Stmt, false), (Entry::Expr, false), (Entry::Stmt, true), (Entry::Expr, true)];

fn total_all(o: &mut Obs, src: &str) {
    for (e, m) in MODES {
        total(o, src, e, m);
    }
    o.sample(src);
}

const CHARS: &[&str] = &[
    "a", "1", "'", "`", "$", "{", "}", "(", ")", "[", "]", "/", "*", "\\", "=", ">", "<", "!", "-", "+", ".", ",", ":", ";", "?", "\n", "\u{e9}", "\u{1d49c}", "\u{2028}", "u", "#", " ",
];
const CHARS_DEEP: &[&str] = &["a", "`", "${", "{", "}", "(", ")", "/", "\\", "=", ">", "\n", "\u{4e2d}", "'"];
const ESCAPES: &[&str] = &["'", "\\", "u", "{", "}", "x", "0", "D800", "DC00", "110000", "\u{e9}", "a", "\n", "`", "/"];
pub const WORDS: &[&str] = &[
    "a", "1", "'s'", "`t`", "`${", "}${", "}`", "/r/", "{", "}", "(", ")", "[", "]", ";", ",", ".", "...", "?.", "?", ":", "=", "+=", "=>", "+", "++", "*", "**", "<", "!", "&&", "??", "\n", "async", "await", "break", "case",
    "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "finally", "for", "function", "get", "if", "import", "in", "instanceof", "let", "new", "of", "as", "from", "return",
    "set", "static", "super", "switch", "target", "this", "throw", "try", "typeof", "var", "void", "while", "with", "yield", "'use strict'", "eval", "implements", "constructor", "null", "true", "meta", "\u{e9}", "\\u0061", "@",
];

pub fn p01(run: &mut Run) {
    let n = run.pick(4, 5);
    strings::explore(run, "characters", CHARS, n, total_all);
    let n = run.pick(5, 6);
    strings::explore(run, "characters, deeper", CHARS_DEEP, n, total_all);
    let n = run.pick(4, 5);
    strings::explore(run, "escapes", ESCAPES, n, |o, s| {
        for q in ["'", "`", "/", "a"] {
            total(o, &format!("{q}{s}"), Entry::Script, false);
        }
    });
    // Every sequence of tokens, with nothing cut off.
    let spaced: Vec<String> = WORDS.iter().map(|w| format!("{w} ")).collect();
    let spaced: Vec<&str> = spaced.iter().map(|s| s.as_str()).collect();
    let n = run.pick(3, 4);
    strings::explore(run, "tokens", &spaced, n, |o, s| {
        total(o, s, Entry::Script, false);
        total(o, s, Entry::Module, true);
        total(o, s, Entry::Expr, false);
    });
    // The same inside constructs that change the context.
    let inside = [("function*f(){", "}"), ("async function f(){", "}"), ("class C extends B{", "}"), ("({", "})"), ("({", "}=a)"), ("for(", ")a"), ("function f(", "){}"), ("switch(a){", "}"), ("class C extends B{constructor(){", "}}"), ("(", ")=>a"), ("import{", "}from'm'"), ("export ", ""), ("`${", "}`"), ("[", "]=a")];
    let n = run.pick(2, 3);
    strings::explore(run, "tokens inside", &spaced, n, |o, s| {
        for (a, b) in inside {
            total(o, &format!("{a}{s}{b}"), Entry::Module, true);
            total(o, &format!("{a}{s}"), Entry::Script, false);
        }
    });
    // Every cut and every small damage of valid programs.
    let n = run.pick(2, 3);
    terms::explore(run, &terms::SCRIPT, n, |o, s| damaged(o, s, Entry::Script, false));
    terms::explore(run, &terms::MODULE, n, |o, s| damaged(o, s, Entry::Module, true));
    // Every token sequence of the grammar worlds, past the point where it fails.
    for (_, ws) in crate::groups() {
        let cut = run.pick(2, 1);
        let ws: Vec<World> = ws.iter().map(|w| World { dead: 1, ..*w }).collect();
        run.worlds(&ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, _| total(o, s, w.entry(), w.module));
    }
    deep(run);
    long(run);
}

/// Every prefix, every text with one character left out, and every text with one character doubled.
fn damaged(o: &mut Obs, src: &str, entry: Entry, module: bool) {
    let mut count = 0;
    let mut go = |s: &str| {
        count += 1;
        total(o, s, entry, module);
    };
    for (i, c) in src.char_indices() {
        let j = i + c.len_utf8();
        go(&src[..i]);
        go(&format!("{}{}", &src[..i], &src[j..]));
        go(&format!("{}{}{}", &src[..j], c, &src[j..]));
    }
    o.counts.states += count;
    o.counts.transitions += count;
}

pub const WRAPPERS: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("({a:", "})"), ("f(", ")"), ("a[", "]"), ("`${", "}`"), ("a=>", ""), ("(a=>(", "))"), ("function(){return ", "}"), ("!", ""), ("a?", ":a"), ("a+", ""), ("a=", ""), ("new ", "()"), ("async(", ")"),
    ("({m(){return ", "}})"), ("class{[", "](){}}"), ("class extends (", "){}"), ("[...", "]"), ("{...", "}"), ("await ", ""), ("async()=>", ""), ("a?.[", "]"), ("[", "]=a"), ("({", "}=a)"), ("a,", ""),
];

/// Deep nesting of every pair of wrappers, complete and cut off.
fn deep(run: &mut Run) {
    let items: Vec<(usize, usize)> = (0..WRAPPERS.len()).flat_map(|i| (0..WRAPPERS.len()).map(move |j| (i, j))).collect();
    let depth = 30;
    run.each("deep nesting", &format!("every pair of {} wrappers, nested {depth} times in turn", WRAPPERS.len()), &items, |o, &(i, j)| {
        let (mut a, mut b) = (String::new(), String::new());
        for k in 0..depth {
            let w = WRAPPERS[if k % 2 == 0 { i } else { j }];
            a.push_str(w.0);
            b.insert_str(0, w.1);
        }
        for s in [format!("x={a}a{b}"), format!("x={a}"), format!("x={a}a{b})"), format!("({a}a{b})=>1")] {
            o.counts.states += 1;
            o.counts.transitions += 1;
            total(o, &s, Entry::Script, false);
        }
    });
}

/// What can stand in a text any number of times without nesting, `@` in what surrounds it.
pub const REPEATED: &[(&str, &str)] = &[
    ("@", " "), ("@", "\n"), ("a@", "\u{feff}"), ("@", "/**/"), ("@", "//\n"), ("@", "<!--\n"), ("@", "-->\n"), ("@", "/*\n*/-->"), ("/*@*/", "*"), ("//@", "a"), ("@", ";"), ("@", "a;"), ("@", "a\n"), ("@", "{}"),
    ("@", "'use strict';"), ("@", "\u{2028}a"), ("@", "a"), ("@", "\\u0061"), ("1@", "1"), ("1@", "_1"), ("'@'", "\\n"), ("'@'", "\\\n"), ("\"@\"", "\u{1d49c}"), ("`@`", "a"), ("`@`", "${a}"), ("`@`", "\n"), ("/@/", "[a]"),
    ("/a/@", "g"), ("[@]", "a,"), ("[@]", ","), ("[@]=a", "a,"), ("({@})", "a,"), ("({@})", "a:1,"), ("({@})", "m(){},"), ("({@}=a)", "a,"), ("f(@)", "a,"), ("(@a)", "a,"), ("(@)=>a", "a,"), ("function f(@){}", "a,"),
    ("class A{@}", "m(){}"), ("class A{@}", ";"), ("switch(a){@}", "case a:"), ("switch(a){case a:@}", "a;"), ("var a@", ",a"), ("var [@]=a", "a,"), ("var {@}=a", "a,"), ("import {@} from 'a'", "a,"), ("@", "import 'a';"),
    ("export {@}", "a,"), ("@", "export * from 'a';"), ("@", "function f(){}"), ("@", "if(a);else;"), ("@", "for(;;);"), ("function f(){@}", "return;"), ("@", "a=>a;"), ("@", "var a\n"), ("@", "let\n"), ("@", "async\n"),
];

/// One long text on a stack of the usual size.
fn long_one(o: &mut Obs, src: &str) {
    const TIMES: usize = 100_000;
    let (around, unit) = src.split_once('\u{1}').unwrap_or(("@", src));
    let text = around.replace('@', &unit.repeat(TIMES));
    for (entry, module, text) in [(Entry::Script, false, text.clone()), (Entry::Module, true, text.clone()), (Entry::Script, false, text.clone() + ")"), (Entry::Module, true, text + "\n@")] {
        o.start("long", src);
        let bad = std::thread::scope(|s| {
            let run = || match imp::parse(&text, entry, module) {
                Imp::Tree(_) => None,
                Imp::Rejected(e) => render(&text, &e).err().map(|e| format!("rendering the error: {e}")),
                Imp::Panicked(p) => Some(format!("panic: {p}")),
            };
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, run).expect("thread").join().unwrap()
        });
        o.done();
        o.counts.states += 1;
        o.counts.transitions += 1;
        o.counts.replays += 1;
        if let Some(b) = bad {
            o.violation("long", src, format!("{TIMES} times: {b}"));
        }
    }
}

fn long(run: &mut Run) {
    let items: Vec<String> = REPEATED.iter().map(|(a, u)| format!("{a}\u{1}{u}")).collect();
    run.each("long texts", "100000 times each thing that can be repeated without nesting, on a stack of 8 MiB", &items, |o, s| long_one(o, s));
}

pub fn p01_case(o: &mut Obs, entry: &str, src: &str) {
    if entry == "long" {
        return long_one(o, src);
    }
    let (e, m) = match entry {
        "expr-module" => (Entry::Expr, true),
        "stmt-module" => (Entry::Stmt, true),
        _ => entry_of(entry),
    };
    total(o, src, e, m);
}

// ------------------------------------------------------------------ what the error says

#[derive(Debug, PartialEq, Clone)]
struct Said {
    message: String,
    /// Line, column (from one), and where the first marked character is.
    at: Option<(usize, usize, usize)>,
    /// Line number, text and marker of the quotation.
    quote: Option<(usize, String, usize, usize, String)>,
}

fn read(out: &str) -> Option<Said> {
    let (message, rest) = out.split_once(&format!("\n --> {FILE}"))?;
    let (at, rest) = rest.split_once('\n')?;
    let at = match at.strip_prefix(':') {
        Some(x) => {
            let (l, c) = x.split_once(':')?;
            Some((l.parse().ok()?, c.parse().ok()?, 0))
        }
        None if at.is_empty() => None,
        None => return None,
    };
    if rest.is_empty() {
        return Some(Said { message: message.into(), at, quote: None });
    }
    let (bar, rest) = rest.split_once('\n')?;
    let pad = bar.strip_suffix('|')?;
    if !pad.bytes().all(|b| b == b' ') {
        return None;
    }
    let (num, rest) = rest.split_once('|')?;
    if num.len() != pad.len() {
        return None;
    }
    let line = num.trim_end().parse().ok()?;
    let rest = rest.strip_prefix(' ')?;
    // The marker line is the last one.
    let rest = rest.strip_suffix('\n')?;
    let i = rest.rfind(&format!("\n{pad}| "))?;
    let (text, mark) = (&rest[..i], &rest[i + 1 + pad.len() + 2..]);
    let offset = mark.len() - mark.trim_start_matches(' ').len();
    let mark = &mark[offset..];
    let n = mark.len() - mark.trim_start_matches('^').len();
    if n == 0 {
        return None;
    }
    Some(Said { message: message.into(), at, quote: Some((line, text.into(), offset, n, mark[n..].trim().into())) })
}

fn wide(s: &str) -> String {
    s.replace('\t', "    ")
}

/// The range in the library's own terms, as far as it can be seen.
fn debug_range(e: &Error) -> Option<(usize, usize)> {
    let d = format!("{e:?}");
    let i = d.rfind("span: Span { start: ")?;
    let d = &d[i + 20..];
    let (a, d) = d.split_once(", end: ")?;
    Some((a.parse().ok()?, d[..d.find(|c: char| !c.is_ascii_digit())?].parse().ok()?))
}

/// What a message names, and must stand at the place it points at.
fn named(m: &str) -> Option<&str> {
    let rest = ["Unexpected token `", "Unexpected identifier `", "Forbidden identifier `"].iter().find_map(|p| m.find(p).map(|i| &m[i + p.len()..]))?;
    let end = rest.rfind('`')?;
    Some(&rest[..end])
}

/// Checks the rendering of one error; the offset it points at.
fn check(src: &str, e: &Error) -> Result<(Option<usize>, Said, Option<&'static str>), String> {
    let out = render(src, e)?;
    let said = read(&out).ok_or_else(|| format!("the message has another form: {out:?}"))?;
    if said.message != e.to_string() {
        return Err(format!("the message is {:?}, expected {:?}", said.message, e.to_string()));
    }
    let mut known = None;
    let Some((line, col, _)) = said.at else {
        // Without a place: only at the end of the text.
        if !imp::at_end(e) {
            return Err(format!("no place is given: {out:?}"));
        }
        if said.quote.is_some() {
            known = Some("unpositioned-end");
        }
        return Ok((None, said, known));
    };
    let Some(text) = src.split('\n').nth(line - 1) else { return Err(format!("there is no line {line}")) };
    let starts: usize = src.split('\n').take(line - 1).map(|l| l.len() + 1).sum();
    let Some(before) = text.char_indices().map(|(i, _)| i).chain([text.len()]).nth(col - 1) else {
        return Err(format!("line {line} has no column {col}"));
    };
    let offset = starts + before;
    let Some((qline, qtext, qoff, n, _)) = &said.quote else { return Err(format!("no line is shown: {out:?}")) };
    if *qline != line || *qtext != wide(text) {
        return Err(format!("line {qline} is shown as {qtext:?}, expected line {line}, {:?}", wide(text)));
    }
    let want = wide(&text[..before]).chars().count();
    if *qoff != want {
        return Err(format!("the marker starts at {qoff}, expected {want}: {out}"));
    }
    let width = qtext.chars().count();
    if qoff + n > width.max(qoff + 1) {
        return Err(format!("the marker goes beyond the line: {out}"));
    }
    if let Some((s, e)) = debug_range(e) {
        if s != offset {
            return Err(format!("the place shown is {offset}, the error is at {s}:{e}"));
        }
        let real = if src.is_char_boundary(e) {
            e
        } else {
            known = Some("non-ascii-end");
            (e..=src.len()).find(|&i| src.is_char_boundary(i) && short_end(src, i) == e).unwrap_or(usize::MAX)
        };
        if real < s || real > src.len() {
            return Err(format!("the error is at {s}:{e} of {}", src.len()));
        }
        let shown = src[s..real].split('\n').next().unwrap();
        let marked = wide(shown).chars().count().max(1);
        if *n != marked {
            return Err(format!("{n} characters are marked, expected {marked}: {out}"));
        }
    }
    if let Some((s, e)) = debug_range(e).filter(|_| !matches!(e.kind(), ErrorKind::LexerError(_))) {
        within_tokens(src, s, e)?;
    }
    if let Some(name) = named(&said.message) {
        let there = &src[offset..];
        let range = debug_range(e).map_or(offset + n, |r| r.1);
        let within = src[offset..].find(name).map_or(false, |i| offset + i < range);
        if name != "literal" && !within && !there.starts_with('\\') && !there.split(|c: char| !c.is_alphanumeric() && c != '\\' && c != '{' && c != '}').next().unwrap().contains('\\') {
            return Err(format!("{name:?} does not stand at {line}:{col}: {out}"));
        }
    }
    Ok((Some(offset), said, known))
}

/// The tokens, where they do not depend on the grammar.
fn plain_tokens(src: &str) -> Option<Vec<Token>> {
    if src.contains(['/', '`']) || src.contains("<!--") || src.contains("-->") {
        return None;
    }
    Lexer::new(src).unwrap().read_all().ok()
}

/// Errors of the parser begin and end where tokens do.
fn within_tokens(src: &str, start: usize, end: usize) -> Result<(), String> {
    let Some(tokens) = plain_tokens(src) else { return Ok(()) };
    if !tokens.iter().any(|t| t.span.start == start) {
        return Err(format!("the error begins at {start}, where no token begins"));
    }
    if !tokens.iter().any(|t| t.span.end == end) {
        return Err(format!("the error ends at {end}, where no token ends"));
    }
    Ok(())
}

fn said(o: &mut Obs, src: &str, entry: Entry, module: bool) {
    o.start(name(entry, module), src);
    let r = imp::parse(src, entry, module);
    o.done();
    o.counts.replays += 1;
    let e = match r {
        Imp::Tree(_) => {
            o.counts.accepted += 1;
            return;
        }
        Imp::Rejected(e) => e,
        Imp::Panicked(_) => return,
    };
    o.counts.rejected += 1;
    let (offset, said, known) = match check(src, &e) {
        Ok(x) => x,
        Err(w) => return o.violation(name(entry, module), src, w),
    };
    if let Some(k) = known {
        o.counts.known(k, src);
    }
    o.sample(src);
    // The place moves with the text.
    for (pre, lines, cols) in [("\n", 1, 0), ("/*\u{e9}\t*/ ", 0, 7), ("//\u{1d49c}\n/*\n*/", 2, 2)] {
        let moved = format!("{pre}{src}");
        let e = match imp::parse(&moved, entry, module) {
            Imp::Rejected(e) => e,
            Imp::Tree(_) => return o.violation(name(entry, module), src, format!("accepted after {pre:?}")),
            Imp::Panicked(p) => return o.violation(name(entry, module), src, format!("after {pre:?}: panic: {p}")),
        };
        o.counts.replays += 1;
        let (off2, said2, _) = match check(&moved, &e) {
            Ok(x) => x,
            Err(w) => return o.violation(name(entry, module), &moved, w),
        };
        if off2.map(|x| x.wrapping_sub(pre.len())) != offset {
            return o.violation(name(entry, module), src, format!("error at {offset:?}; after {pre:?} at {off2:?}"));
        }
        let want = said.at.map(|(l, c, z)| (l + lines, if l == 1 { c + cols } else { c }, z));
        if said2.at != want {
            return o.violation(name(entry, module), src, format!("after {pre:?} the place shown is {:?}, expected {want:?}", said2.at));
        }
        // Quotations without a place are the finding's.
        if said2.message != said.message && !said.message.starts_with("Lexer error") {
            return o.violation(name(entry, module), src, format!("after {pre:?} the message is {:?}, was {:?}", said2.message, said.message));
        }
    }
}

/// Rejected texts of one line, each wrong for another reason.
const WRONG: &[&str] = &[
    "a b", "}", ")", "\u{e9} \u{e9}", "'a", "`a", "/a", "1a", "\\", "#", "/*", "'\\x'", "0b", "a = = b", "var if", "'\u{4e2d}' \u{1d4b3}", "a\t\tb", "\ta b", "return", "({ a = 1 })",
    "1 = 2", "a++++", "for (a b", "if (", "with", "class { }", "yield: await => 1 2", "import 'm'", "abc = defghi jklmno + 1", "a => { } ()", "async a => b c", "`${a b}`",
];

/// Errors on every line and column up to a bound, and where numbers grow by a digit.
fn far(run: &mut Run) {
    let items: Vec<String> = WRONG.iter().map(|s| s.to_string()).collect();
    run.each("far places", "errors on each of the first 120 lines and columns, and around the thousandth and ten thousandth", &items, |o, s| {
        far_one(o, s);
    });
}

fn far_one(o: &mut Obs, s: &str) {
    let near = match imp::parse(s, Entry::Script, false) {
        Imp::Rejected(e) => check(s, &e),
        _ => Err("not rejected".into()),
    };
    let (offset, said) = match near {
        Ok((offset, said, _)) => (offset, said),
        Err(w) => return o.violation("far", s, w),
    };
    let edges = [998, 999, 1000, 9_998, 9_999, 10_000];
    let places = (0..120).map(|l| (l, 0)).chain((0..120).map(|c| (0, c))).chain(edges.map(|l| (l, 3))).chain(edges.map(|c| (9, c)));
    for (lines, columns) in places {
        let moved = format!("{}{}{s}", "\n".repeat(lines), " ".repeat(columns));
        o.counts.states += 1;
        o.counts.transitions += 1;
        o.counts.replays += 1;
        let r = match imp::parse(&moved, Entry::Script, false) {
            Imp::Rejected(e) => check(&moved, &e),
            _ => Err("not rejected".into()),
        };
        let want = said.at.map(|(l, c, z)| (l + lines, if l == 1 { c + columns } else { c }, z));
        let bad = match r {
            Err(w) => w,
            Ok((off, now, _)) if off != offset.map(|x| x + lines + columns) || now.at != want => {
                format!("the place shown is {:?}, expected {want:?}", now.at)
            }
            Ok(_) => continue,
        };
        return o.violation("far", s, format!("after {lines} line feeds and {columns} blanks: {bad}"));
    }
}

pub fn p15(run: &mut Run) {
    far(run);
    let n = run.pick(3, 4);
    strings::explore(run, "characters", CHARS, n, |o, s| {
        said(o, s, Entry::Script, false);
        said(o, s, Entry::Module, true);
    });
    let spaced: Vec<String> = WORDS.iter().chain(&["\t"]).map(|w| format!("{w} ")).collect();
    let spaced: Vec<&str> = spaced.iter().map(|s| s.as_str()).collect();
    let n = run.pick(2, 3);
    strings::explore(run, "tokens", &spaced, n, |o, s| {
        for (e, m) in MODES {
            said(o, s, e, m);
        }
    });
    for (_, ws) in crate::groups() {
        let cut = run.pick(2, 1);
        let ws: Vec<World> = ws.iter().map(|w| World { dead: 1, ..*w }).collect();
        run.worlds(&ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, _| said(o, s, w.entry(), w.module));
    }
    run.worlds(crate::worlds::WIDE, |w| w.quick, &|o, w: &World, s, _| said(o, s, w.entry(), w.module));
}

pub fn p15_case(o: &mut Obs, entry: &str, src: &str) {
    if entry == "far" {
        return far_one(o, src);
    }
    let (e, m) = match entry {
        "expr-module" => (Entry::Expr, true),
        "stmt-module" => (Entry::Stmt, true),
        _ => entry_of(entry),
    };
    said(o, src, e, m);
}
