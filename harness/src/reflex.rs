//! Reference lexical grammar (ECMA-262 ed. 12, chapter 12), written from the specification and
//! independent of the implementation: one function that, given a position and a lexical goal,
//! returns the next token of the text.
//!
//! Supported language (see DESIGN.md): no BigInt, no `&&=` `||=` `??=`, no legacy octal-like
//! numbers, HTML-like comments in scripts only.

use unicode_id::UnicodeID;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Name,
    P,
    Num,
    Str,
    TplFull,
    TplHead,
    TplMiddle,
    TplTail,
    Regex,
    Eof,
    Bad,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Goal {
    Div,
    RegExp,
    TemplateTail,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok<'a> {
    pub k: K,
    pub s: usize,
    pub e: usize,
    /// A line terminator lies between the previous token (or the start of the text) and this one.
    pub nl: bool,
    /// Raw source text (names: source text, possibly with escapes).
    pub v: &'a str,
    pub esc: bool,
    /// The failure (for `Bad`) needs the end of the text to be a failure.
    pub at_eof: bool,
}

pub fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}
pub fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}'
        | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}

/// The Unicode tables themselves are taken as given (crate unicode-id).
pub fn id_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '$' || c == '_' || (!c.is_ascii() && c.is_id_start())
}
pub fn id_part(c: char) -> bool {
    id_start(c) || c.is_ascii_digit() || matches!(c, '\u{200c}' | '\u{200d}') || (!c.is_ascii() && c.is_id_continue())
}

const PUNCT: &[&str] = &[
    ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "=>", "==", "!=", "<=", ">=", "++", "--", "<<", ">>", "&&",
    "||", "??", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "**", "?.", "{", "}", "(", ")", "[", "]", ".", ";", ",",
    "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=",
];

pub struct Trivia {
    pub pos: usize,
    pub nl: bool,
    /// Unterminated block comment or forbidden HTML-like comment.
    pub bad: bool,
    pub at_eof: bool,
}

/// Skips white space, line terminators and comments from `pos`.
pub fn trivia(src: &str, mut pos: usize, module: bool) -> Trivia {
    // `-->` is a comment at the beginning of a line; the start of the text counts as one.
    let mut nl = false;
    let start_of_text = pos == 0;
    loop {
        let rest = &src[pos..];
        let Some(c) = rest.chars().next() else {
            return Trivia { pos, nl, bad: false, at_eof: false };
        };
        if is_lt(c) {
            nl = true;
            pos += c.len_utf8();
        } else if is_ws(c) {
            pos += c.len_utf8();
        } else if rest.starts_with("//")
            || rest.starts_with("<!--")
            || (rest.starts_with("-->") && (nl || start_of_text))
        {
            if module && !rest.starts_with("//") {
                return Trivia { pos, nl, bad: true, at_eof: false };
            }
            match rest.char_indices().find(|(_, c)| is_lt(*c)) {
                Some((i, c)) => {
                    pos += i + c.len_utf8();
                    nl = true;
                }
                None => {
                    pos = src.len();
                }
            }
        } else if rest.starts_with("/*") {
            match rest[2..].find("*/") {
                Some(i) => {
                    if rest[2..2 + i].chars().any(is_lt) {
                        nl = true;
                    }
                    pos += 2 + i + 2;
                }
                None => return Trivia { pos, nl, bad: true, at_eof: true },
            }
        } else {
            return Trivia { pos, nl, bad: false, at_eof: false };
        }
    }
}

/// Decoded character of a `\u` escape at `s[i..]` (pointing at the backslash), and its length.
/// `Err(true)` when more text could still complete it.
pub fn unicode_escape(s: &str) -> Result<(u32, usize), bool> {
    let b = s.as_bytes();
    if b.len() < 2 {
        return Err(true);
    }
    if b[1] != b'u' {
        return Err(false);
    }
    if b.len() < 3 {
        return Err(true);
    }
    if b[2] == b'{' {
        let mut v: u32 = 0;
        let mut i = 3;
        loop {
            match b.get(i) {
                None => return Err(true),
                Some(b'}') if i > 3 => return Ok((v, i + 1)),
                Some(h) if h.is_ascii_hexdigit() => {
                    v = v.saturating_mul(16).saturating_add((*h as char).to_digit(16).unwrap());
                    if v > 0x10ffff {
                        v = 0x7fffffff; // stays out of range
                        let _ = v;
                        // consume further digits to find whether it is closed; in any case invalid
                        return Err(false);
                    }
                    i += 1;
                }
                Some(_) => return Err(false),
            }
        }
    }
    let mut v = 0u32;
    for i in 2..6 {
        match b.get(i) {
            None => return Err(true),
            Some(h) if h.is_ascii_hexdigit() => v = v * 16 + (*h as char).to_digit(16).unwrap(),
            Some(_) => return Err(false),
        }
    }
    Ok((v, 6))
}

fn digits(s: &str, ok: fn(char) -> bool) -> Result<usize, bool> {
    // DecimalDigits[+Sep] and friends: separators only between digits.
    let mut last_sep = true; // no leading separator
    let mut n = 0;
    for c in s.chars() {
        if c == '_' {
            if last_sep {
                return Err(false);
            }
            last_sep = true;
        } else if ok(c) {
            last_sep = false;
        } else {
            break;
        }
        n += 1;
    }
    if n > 0 && last_sep {
        return Err(n == s.len());
    }
    Ok(n)
}

/// Length of the numeric literal at the start of `s`, or Err(needs more text).
pub fn number(s: &str) -> Result<usize, bool> {
    let b = s.as_bytes();
    let dec = |c: char| c.is_ascii_digit();
    let mut n;
    if b[0] == b'0' && matches!(b.get(1), Some(b'x' | b'X' | b'o' | b'O' | b'b' | b'B')) {
        let ok: fn(char) -> bool = match b[1] {
            b'x' | b'X' => |c| c.is_ascii_hexdigit(),
            b'o' | b'O' => |c| ('0'..='7').contains(&c),
            _ => |c| c == '0' || c == '1',
        };
        let d = digits(&s[2..], ok)?;
        if d == 0 {
            return Err(s.len() == 2);
        }
        n = 2 + d;
    } else {
        n = 0;
        if b[0] != b'.' {
            let d = digits(s, dec)?;
            if b[0] == b'0' && d > 1 {
                return Err(false); // legacy octal-like, or `0_1`: never valid
            }
            n += d;
        }
        if b.get(n) == Some(&b'.') {
            n += 1;
            let d = digits(&s[n..], dec)?;
            if d == 0 && n == 1 {
                return Err(false);
            }
            n += d;
        }
        if matches!(b.get(n), Some(b'e' | b'E')) {
            n += 1;
            if matches!(b.get(n), Some(b'+' | b'-')) {
                n += 1;
            }
            let d = digits(&s[n..], dec)?;
            if d == 0 {
                return Err(s.len() == n);
            }
            n += d;
        }
    }
    // Must not be immediately followed by an IdentifierStart or digit.
    match s[n..].chars().next() {
        Some(c) if id_start(c) || c.is_ascii_digit() || c == '\\' => Err(false),
        _ => Ok(n),
    }
}

/// Length of the name at the start of `s` and whether it has an escape; Ok(0): not a name.
pub fn name(s: &str) -> Result<(usize, bool), bool> {
    let mut n = 0;
    let mut esc = false;
    loop {
        let Some(c) = s[n..].chars().next() else { break };
        let ok = |c: char| if n == 0 { id_start(c) } else { id_part(c) };
        if c == '\\' {
            let (v, len) = unicode_escape(&s[n..])?;
            match char::from_u32(v) {
                Some(c) if ok(c) => {}
                _ => return Err(false),
            }
            esc = true;
            n += len;
        } else if ok(c) {
            n += c.len_utf8();
        } else {
            break;
        }
    }
    Ok((n, esc))
}

pub fn unescape_name(s: &str) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        if c == '\\' {
            let (v, len) = unicode_escape(&s[i..]).unwrap();
            out.push(char::from_u32(v).unwrap());
            i += len;
        } else {
            out.push(c);
            i += c.len_utf8();
        }
    }
    out
}

/// Length of the string literal at the start of `s`, and its value (None: the value is not
/// representable as Unicode text, i.e. has a lone surrogate).
pub fn string(s: &str) -> Result<(usize, Option<String>), bool> {
    let q = s.chars().next().unwrap();
    let mut units: Vec<u16> = vec![];
    let mut buf = [0u16; 2];
    let mut i = 1;
    loop {
        let Some(c) = s[i..].chars().next() else { return Err(true) };
        if c == q {
            return Ok((i + 1, String::from_utf16(&units).ok()));
        }
        if c == '\n' || c == '\r' {
            return Err(false);
        }
        if c != '\\' {
            units.extend_from_slice(c.encode_utf16(&mut buf));
            i += c.len_utf8();
            continue;
        }
        let Some(e) = s[i + 1..].chars().next() else { return Err(true) };
        match e {
            'n' => units.push(10),
            't' => units.push(9),
            'r' => units.push(13),
            'b' => units.push(8),
            'v' => units.push(11),
            'f' => units.push(12),
            '\r' => {
                // Line continuation: this AST keeps the escaped line break (pinned by the tests).
                units.push(13);
                if s[i + 2..].starts_with('\n') {
                    units.push(10);
                    i += 1;
                }
            }
            'x' => {
                let mut v = 0;
                for j in 0..2 {
                    match s.as_bytes().get(i + 2 + j) {
                        None => return Err(true),
                        Some(h) if h.is_ascii_hexdigit() => v = v * 16 + (*h as char).to_digit(16).unwrap(),
                        Some(_) => return Err(false),
                    }
                }
                units.push(v as u16);
                i += 4;
                continue;
            }
            'u' => {
                let (v, len) = unicode_escape(&s[i..])?;
                if v >= 0x10000 {
                    units.extend_from_slice(char::from_u32(v).unwrap().encode_utf16(&mut buf));
                } else {
                    units.push(v as u16);
                }
                i += len;
                continue;
            }
            '0'..='7' => {
                // \0, or a legacy octal escape (sloppy code).
                let b = &s.as_bytes()[i + 1..];
                let max = if b[0] <= b'3' { 3 } else { 2 };
                let mut v = 0u32;
                let mut n = 0;
                while n < max && n < b.len() && (b'0'..=b'7').contains(&b[n]) {
                    v = v * 8 + (b[n] - b'0') as u32;
                    n += 1;
                }
                units.push(v as u16);
                i += 1 + n;
                continue;
            }
            e => units.extend_from_slice(e.encode_utf16(&mut buf)),
        }
        i += 1 + e.len_utf8();
    }
}

/// Length of the regular expression literal at the start of `s`.
pub fn regex(s: &str) -> Result<usize, bool> {
    let mut i = 1;
    let mut class = false;
    loop {
        let Some(c) = s[i..].chars().next() else { return Err(true) };
        if is_lt(c) {
            return Err(false);
        }
        i += c.len_utf8();
        match c {
            '\\' => {
                let Some(e) = s[i..].chars().next() else { return Err(true) };
                if is_lt(e) {
                    return Err(false);
                }
                i += e.len_utf8();
            }
            '[' => class = true,
            ']' => class = false,
            '/' if !class => break,
            _ => {}
        }
    }
    while let Some(c) = s[i..].chars().next() {
        if !id_part(c) {
            break;
        }
        i += c.len_utf8();
    }
    Ok(i)
}

/// From just after the opening backtick or brace: (end of the part's text, end of the token, substitution follows).
pub fn template_part(s: &str, mut i: usize) -> Result<(usize, usize, bool), bool> {
    loop {
        let Some(c) = s[i..].chars().next() else { return Err(true) };
        match c {
            '`' => return Ok((i, i + 1, false)),
            '$' if s[i + 1..].starts_with('{') => return Ok((i, i + 2, true)),
            '\\' => {
                let Some(e) = s[i + 1..].chars().next() else { return Err(true) };
                i += 1 + e.len_utf8();
            }
            c => i += c.len_utf8(),
        }
    }
}

/// The next token from `pos`.
pub fn lex<'a>(src: &'a str, pos: usize, goal: Goal, module: bool) -> Tok<'a> {
    let t = if goal == Goal::TemplateTail {
        Trivia { pos, nl: false, bad: false, at_eof: false }
    } else {
        trivia(src, pos, module)
    };
    let s = t.pos;
    let mk = |k: K, e: usize| Tok { k, s, e, nl: t.nl, v: &src[s..e], esc: false, at_eof: false };
    let bad = |at_eof: bool| Tok { k: K::Bad, s, e: src.len(), nl: t.nl, v: &src[s..], esc: false, at_eof };
    if t.bad {
        return bad(t.at_eof);
    }
    let rest = &src[s..];
    let Some(c) = rest.chars().next() else { return mk(K::Eof, s) };
    if goal == Goal::TemplateTail {
        if c != '}' {
            return bad(false);
        }
        return match template_part(rest, 1) {
            Ok((_, e, more)) => mk(if more { K::TplMiddle } else { K::TplTail }, s + e),
            Err(x) => bad(x),
        };
    }
    if goal == Goal::RegExp && c == '/' {
        return match regex(rest) {
            Ok(n) => mk(K::Regex, s + n),
            Err(x) => bad(x),
        };
    }
    if id_start(c) || c == '\\' {
        return match name(rest) {
            Ok((n, esc)) => Tok { esc, ..mk(K::Name, s + n) },
            Err(x) => bad(x),
        };
    }
    if c.is_ascii_digit() || (c == '.' && rest[1..].starts_with(|c: char| c.is_ascii_digit())) {
        return match number(rest) {
            Ok(n) => mk(K::Num, s + n),
            Err(x) => bad(x),
        };
    }
    if c == '"' || c == '\'' {
        return match string(rest) {
            Ok((n, _)) => mk(K::Str, s + n),
            Err(x) => bad(x),
        };
    }
    if c == '`' {
        return match template_part(rest, 1) {
            Ok((_, e, more)) => mk(if more { K::TplHead } else { K::TplFull }, s + e),
            Err(x) => bad(x),
        };
    }
    if rest.starts_with("..") && !rest.starts_with("...") {
        return bad(rest.len() == 2); // two dots never occur in a program; the lexer refuses them early
    }
    for p in PUNCT {
        if rest.starts_with(p) {
            if *p == "?." && rest[2..].starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
            return mk(K::P, s + p.len());
        }
    }
    bad(false)
}
