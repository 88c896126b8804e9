//! Names of operators, keywords, punctuators and declaration kinds, in both directions, over every
//! short text and every near miss.
use crate::check::Run;
use crate::engine::Obs;
use crate::imp;
use crate::strings;
use fajt_ast::{assignment_op, binary_op, logical_op, unary_op, update_op};
use fajt_ast::{AssignmentOperator, BinaryOperator, LogicalOperator, UnaryOperator, UpdateOperator, VariableKind};
use fajt_lexer::token::{Keyword, KeywordContext, Punctuator, TokenValue};
use fajt_lexer::{keyword, punct};
use std::fmt::Debug;
use std::str::FromStr;

/// What a text reads as in one family: the text it converts back to, both ways, or refused.
type Read = fn(&str) -> Option<(String, String)>;

struct Family {
    name: &'static str,
    members: &'static [&'static str],
    read: Read,
    /// The value the family's macro gives for a member reads and writes the same.
    constant: fn(&str) -> Option<String>,
}

macro_rules! family {
    ($name:literal, $t:ty, $of:expr, [$($m:tt $val:expr),* $(,)?]) => {
        Family {
            name: $name,
            members: &[$($m),*],
            read: |s| <$t>::from_str(s).ok().map(|v| (v.as_str().to_string(), v.to_string())),
            constant: |s| {
                let of = $of;
                match s {
                    $($m => same::<$t>(s, of($val)),)*
                    _ => None,
                }
            },
        }
    };
}

fn same<T: FromStr + PartialEq + Debug + ToString>(s: &str, v: Option<T>) -> Option<String> {
    let Some(v) = v else { return Some("the constant is of another family".into()) };
    match s.parse::<T>() {
        Ok(p) if p == v => (v.to_string() != s).then(|| format!("the constant {v:?} is written {:?}", v.to_string())),
        Ok(p) => Some(format!("the constant is {v:?}, the text reads as {p:?}")),
        Err(_) => Some(format!("the text of the constant {v:?} is refused")),
    }
}

macro_rules! by_macro {
    ($name:literal, $t:ty, $mac:ident, $of:expr, [$($m:tt),* $(,)?]) => {
        family!($name, $t, $of, [$($m $mac!($m)),*])
    };
}

fn families() -> Vec<Family> {
    vec![
        by_macro!("keyword", Keyword, keyword, |v: TokenValue| match v { TokenValue::Keyword(k) => Some(k), _ => None }, [
            "await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false",
            "finally", "for", "from", "function", "get", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "of", "package", "private", "protected",
            "public", "return", "set", "static", "super", "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield"]),
        by_macro!("punctuator", Punctuator, punct, |v: TokenValue| match v { TokenValue::Punctuator(k) => Some(k), _ => None }, [
            "(", ")", "[", "]", "{", "}", ".", "...", ";", ",", "<", "<<", ">", ">>", ">>>", "=", "==", "===", "<=", "<<=", ">=", ">>=", ">>>=", "=>", "!=", "!==", "+=", "-=", "*=", "**=", "/=",
            "%=", "|=", "^=", "&=", "+", "++", "-", "--", "*", "**", "/", "%", "&", "&&", "|", "||", "^", "!", "~", "?", "??", "?.", ":"]),
        by_macro!("binary operator", BinaryOperator, binary_op, Some, [
            "+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "instanceof", "in", "==", "!=", "===", "!==", "&", "^", "|"]),
        by_macro!("logical operator", LogicalOperator, logical_op, Some, ["&&", "||", "??"]),
        by_macro!("unary operator", UnaryOperator, unary_op, Some, ["delete", "void", "typeof", "+", "-", "~", "!"]),
        by_macro!("update operator", UpdateOperator, update_op, Some, ["++", "--"]),
        by_macro!("assignment operator", AssignmentOperator, assignment_op, Some, [
            "=", "*=", "**=", "/=", "%=", "+=", "-=", "<<=", ">>=", ">>>=", "&=", "^=", "|="]),
        family!("declaration kind", VariableKind, Some, ["const" VariableKind::Const, "let" VariableKind::Let, "var" VariableKind::Var]),
    ]
}

fn text(o: &mut Obs, fs: &[Family], s: &str) {
    for f in fs {
        o.start(f.name, s);
        let got = imp::guard(|| (f.read)(s));
        let constant = imp::guard(|| (f.constant)(s));
        o.done();
        o.counts.replays += 1;
        let known = f.members.contains(&s);
        match got {
            Err(p) => o.violation(f.name, s, format!("panic: {p}")),
            Ok(None) if known => o.violation(f.name, s, "the text is refused"),
            Ok(None) => o.counts.rejected += 1,
            Ok(Some((a, b))) => {
                o.counts.accepted += 1;
                if known {
                    o.sample(&format!("{}: {s}", f.name));
                }
                if !known {
                    o.violation(f.name, s, format!("the text is not of the family and reads as {a:?}"));
                } else if a != s || b != s {
                    o.violation(f.name, s, format!("the text converts back to {a:?} and {b:?}"));
                }
            }
        }
        match constant {
            Ok(None) => {}
            Ok(Some(w)) | Err(w) => o.violation(f.name, s, w),
        }
    }
}

/// Which words may be identifiers, by the sets of the grammar (12.1, 13.1): never, unless strict,
/// unless an await / yield expression is available, always.
fn as_identifier(o: &mut Obs, word: &str) {
    let always = ["as", "async", "from", "get", "of", "set", "target"];
    let sloppy = ["implements", "interface", "let", "package", "private", "protected", "public", "static"];
    let k: Keyword = word.parse().unwrap();
    for bits in 0..8u32 {
        let mut c = KeywordContext::empty();
        let (a, y, s) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
        c.set(KeywordContext::AWAIT, a);
        c.set(KeywordContext::YIELD, y);
        c.set(KeywordContext::STRICT, s);
        let want = always.contains(&word) || sloppy.contains(&word) && !s || word == "await" && !a || word == "yield" && !y && !s;
        o.counts.states += 1;
        o.counts.transitions += 1;
        o.counts.replays += 1;
        match imp::guard(|| k.is_allowed_as_identifier(c)) {
            Ok(got) if got == want => {}
            r => o.violation("identifier", word, format!("as an identifier with await {a}, yield {y}, strict {s}: {r:?}, expected {want}")),
        }
    }
}

/// Every text one change away from `s`.
fn near(s: &str, alphabet: &[char], f: &mut dyn FnMut(&str)) {
    let cs: Vec<char> = s.chars().collect();
    let join = |v: &[char]| v.iter().collect::<String>();
    for i in 0..=cs.len() {
        for &c in alphabet {
            let mut v = cs.clone();
            v.insert(i, c);
            f(&join(&v));
            if i < cs.len() {
                let mut v = cs.clone();
                v[i] = c;
                f(&join(&v));
            }
        }
        if i < cs.len() {
            let mut v = cs.clone();
            v.remove(i);
            f(&join(&v));
        }
        if i + 1 < cs.len() {
            let mut v = cs.clone();
            v.swap(i, i + 1);
            f(&join(&v));
        }
    }
    f(&s.to_uppercase());
}

pub fn run(run: &mut Run) {
    let fs = families();
    let punct = ["(", ")", "[", "]", "{", "}", ".", ";", ",", "<", ">", "=", "!", "+", "-", "*", "/", "%", "|", "&", "^", "~", "?", ":", " "];
    let n = run.pick(4, 5);
    strings::explore(run, "operator characters", &punct, n, |o, s| text(o, &fs, s));
    let letters: Vec<String> = ('a'..='z').map(String::from).collect();
    let letters: Vec<&str> = letters.iter().map(|s| s.as_str()).collect();
    let n = run.pick(4, 5);
    strings::explore(run, "letters", &letters, n, |o, s| text(o, &fs, s));
    let alphabet: Vec<char> = (0u8..128).map(char::from).chain(['\u{e9}', '\u{212a}', '\u{17f}', '\u{1d49c}']).collect();
    let mut members: Vec<&str> = fs.iter().flat_map(|f| f.members).copied().collect();
    members.sort();
    members.dedup();
    let deep = !run.quick();
    let few: Vec<char> = "aeinst.=+ ".chars().collect();
    run.each("near misses", "every member with every one change (in the thorough tier: two)", &members, |o, m| {
        let mut count = 1;
        text(o, &fs, m);
        near(m, &alphabet, &mut |s| {
            count += 1;
            text(o, &fs, s);
            if deep {
                near(s, &few, &mut |s| {
                    count += 1;
                    text(o, &fs, s)
                });
            }
        });
        o.counts.states += count;
        o.counts.transitions += count;
    });
    let keywords = fs[0].members;
    run.each("words as identifiers", "every keyword in every one of the 8 contexts", keywords, |o, w| as_identifier(o, w));
}

pub fn case(o: &mut Obs, entry: &str, s: &str) {
    if entry == "identifier" {
        return as_identifier(o, s);
    }
    text(o, &families(), s);
}
