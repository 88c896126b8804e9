//! Histories of the token reader and of the character reader against their explicit models.
use crate::check::Run;
use crate::engine::Obs;
use crate::grammar::short_end;
use crate::imp;
use crate::lex::{of_ref, of_token, T};
use crate::reflex::{self, Goal, K};
use crate::strings;
use fajt_common::io::PeekReader;
use fajt_lexer::token::Token;
use fajt_lexer::{Lexer, LexerState};

/// What one token of the text is, read at a place under a goal.
#[derive(Clone, Debug, PartialEq)]
enum Slot {
    Tok(T),
    /// A token whose value is not claimed.
    Opaque(usize, usize),
    End,
    Bad,
}

fn slot(src: &str, pos: usize, goal: Goal, module: bool, flag: Option<bool>) -> Slot {
    let t = reflex::lex(src, pos, goal, module);
    match t.k {
        K::Eof => Slot::End,
        K::Bad => Slot::Bad,
        _ => match of_ref(&t, flag.unwrap_or(t.nl || pos == 0)) {
            Some(mut x) => {
                if goal == Goal::TemplateTail {
                    x.first = false;
                }
                Slot::Tok(x)
            }
            None => Slot::Opaque(t.s, t.e),
        },
    }
}

/// The reader as it should be: the text before `cur` is consumed, `cur` was read under some goal.
#[derive(Clone)]
struct Model<'a> {
    src: &'a str,
    module: bool,
    consumed: Vec<T>,
    cur: Slot,
}

impl Model<'_> {
    fn next(&self) -> Option<Slot> {
        match &self.cur {
            Slot::Tok(t) => Some(slot(self.src, t.e, Goal::Div, self.module, None)),
            Slot::End => Some(Slot::End),
            _ => None,
        }
    }
    fn ops(&self) -> usize {
        // consume, re-read as each of three goals, back to each consumed token, back to the current one
        match self.cur {
            Slot::Tok(_) => 5 + self.consumed.len(),
            _ => 4 + self.consumed.len(),
        }
    }
    /// Whether the operation applies here.
    fn apply(&mut self, op: usize) -> bool {
        let Slot::Tok(cur) = self.cur.clone() else {
            // After an error or at the end only going back is left.
            if op < 4 {
                return false;
            }
            return self.back(op - 4);
        };
        match op {
            0 => {
                let next = self.next().unwrap();
                self.consumed.push(cur);
                self.cur = next;
            }
            1..=3 => {
                let goal = [Goal::Div, Goal::RegExp, Goal::TemplateTail][op - 1];
                self.cur = slot(self.src, cur.s, goal, self.module, Some(cur.first));
            }
            _ => return self.back(op - 4),
        }
        true
    }
    fn back(&mut self, i: usize) -> bool {
        let t = match self.consumed.get(i) {
            Some(t) => t.clone(),
            None => match &self.cur {
                Slot::Tok(t) => t.clone(),
                _ => return false,
            },
        };
        self.consumed.truncate(i);
        self.cur = slot(self.src, t.s, Goal::Div, self.module, Some(t.first));
        true
    }
}

struct Real<'a> {
    r: PeekReader<Token, Lexer<'a>>,
    consumed: Vec<Token>,
}

fn state(op: usize, module: bool) -> LexerState {
    match op {
        1 => LexerState::default().with_html_comments_allowed(!module),
        2 => LexerState::regex_allowed(),
        _ => LexerState::inside_template(),
    }
}

impl<'a> Real<'a> {
    fn new(src: &'a str, module: bool) -> Option<Real<'a>> {
        let mut l = Lexer::new(src).ok()?;
        if module {
            l.set_state(LexerState::default().with_html_comments_allowed(false));
        }
        Some(Real { r: PeekReader::new(l).ok()?, consumed: vec![] })
    }
    /// Position, when the operation settles it.
    fn apply(&mut self, op: usize, module: bool) -> Option<usize> {
        match op {
            0 => {
                let t = self.r.consume().expect("a token");
                self.consumed.push(t);
                Some(self.r.position())
            }
            1..=3 => {
                let _ = self.r.reread_with_state(state(op, module));
                None
            }
            _ => {
                let i = op - 4;
                let t = match self.consumed.get(i) {
                    Some(t) => t.clone(),
                    None => self.r.current().ok().expect("a token").clone(),
                };
                self.consumed.truncate(i);
                let _ = self.r.rewind_to(&t);
                None
            }
        }
    }
}

fn shows(src: &str, want: &Slot, got: Result<&Token, &fajt_lexer::error::Error>) -> Result<(), String> {
    use fajt_lexer::error::ErrorKind as E;
    let ok = match (want, got) {
        (Slot::Tok(w), Ok(t)) => {
            let mut g = of_token(t);
            if g.e == short_end(src, w.e) {
                g.e = w.e;
            }
            *w == g
        }
        (Slot::Opaque(s, e), Ok(t)) => t.span.start == *s && t.span.end == *e,
        (Slot::End, Err(e)) => matches!(e.kind(), E::EndOfStream),
        (Slot::Bad, Err(e)) => !matches!(e.kind(), E::EndOfStream),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{:?}, expected {want:?}", got.map(of_token).map_err(|e| e.to_string())))
    }
}

fn op_name(op: usize) -> String {
    match op {
        0 => "consume".into(),
        1 => "re-read".into(),
        2 => "re-read as regexp".into(),
        3 => "re-read as template".into(),
        n => format!("back to {}", n - 4),
    }
}

/// Runs one history on a fresh reader; the model has run it already.
fn replay(src: &str, module: bool, ops: &[usize], m: &Model) -> Result<(), String> {
    let Some(mut r) = Real::new(src, module) else { return Err("no reader".into()) };
    let mut pos = Some(0);
    for &op in ops {
        pos = r.apply(op, module).or(None);
    }
    shows(src, &m.cur, r.r.current()).map_err(|e| format!("current is {e}"))?;
    if let Some(n) = m.next() {
        shows(src, &n, r.r.peek()).map_err(|e| format!("look-ahead is {e}"))?;
    }
    if let (Some(p), Some(t)) = (pos, m.consumed.last()) {
        if p != t.e && p != short_end(src, t.e) {
            return Err(format!("position {p}, expected {}", t.e));
        }
    }
    Ok(())
}

fn histories(o: &mut Obs, m: &Model, ops: &mut Vec<usize>, left: usize) {
    o.counts.states += 1;
    o.counts.transitions += !ops.is_empty() as u64;
    o.counts.replays += 1;
    let entry = || format!("{}:{}", if m.module { "module" } else { "script" }, ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(","));
    match imp::guard(|| replay(m.src, m.module, ops, m)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => {
            let names: Vec<String> = ops.iter().map(|&o| op_name(o)).collect();
            o.violation(entry(), m.src, format!("after {}: {e}", names.join(", ")));
            return;
        }
    }
    if left == 0 {
        return;
    }
    for op in 0..m.ops() {
        let mut n = m.clone();
        if !n.apply(op) {
            continue;
        }
        ops.push(op);
        histories(o, &n, ops, left - 1);
        ops.pop();
    }
}

fn start(src: &str, module: bool) -> Model<'_> {
    Model { src, module, consumed: vec![], cur: slot(src, 0, Goal::Div, module, None) }
}

const PIECES: &[&str] = &["a", "/", "}", "`", "${", "\n", "--", ">", "'", "\u{e9}"];
const PIECES_WIDE: &[&str] = &[
    "a ", "/", "}", "{", "`", "${", "\n", "--", ">", "<!--", "'", "\u{4e2d}", "1", "[", "\\", "/*", "*/", "//", "=", " ", "\u{2028}", "\u{1d49c}", "g", "\r\n",
];

pub fn run(run: &mut Run) {
    let (len, depth) = run.pick((4, 5), (5, 5));
    strings::explore(run, "token reader", PIECES, len, |o, s| {
        o.sample(s);
        o.start("script:", s);
        histories(o, &start(s, false), &mut vec![], depth);
        o.done();
    });
    let (len, depth) = run.pick((3, 4), (4, 5));
    strings::explore(run, "token reader, wide alphabet", PIECES_WIDE, len, |o, s| {
        o.start("script:", s);
        histories(o, &start(s, false), &mut vec![], depth);
        histories(o, &start(s, true), &mut vec![], depth);
        o.done();
    });
    // Longer histories on a few texts where every goal matters.
    let texts = ["`${/}/g}`", "a\n/}/`${b}c`", "}\n/'/\n}`", "/[`${/]/ }`\n-->", "\u{e9}/\u{4e2d}/\n}`", "`a${`b${/}`/}c`}d`", "a/b/c/d\n/e/g"];
    let depth = run.pick(7, 9);
    run.each("token reader, long histories", &format!("all histories of up to {depth} operations on {} texts", texts.len()), &texts, |o, s| {
        o.start("script:", s);
        histories(o, &start(s, false), &mut vec![], depth);
        o.done();
    });
    let n = run.pick(5, 6);
    strings::explore(run, "character reader", &["a", "\u{e9}", "\u{4e2d}", "\u{1d49c}", "\n"], n, |o, s| {
        for offset in [0, 3] {
            chars(o, s, offset, n + 1);
        }
    });
}

/// Every history of consuming and of reading while a condition holds.
fn chars(o: &mut Obs, s: &str, offset: usize, n: usize) {
    for ops in 0..1usize << n.min(s.chars().count() + 1) {
        o.counts.replays += 1;
        let r = imp::guard(|| {
            let mut r = PeekReader::with_offset(s.char_indices(), offset).map_err(|e| format!("{e:?}"))?;
            let all: Vec<(usize, char)> = s.char_indices().collect();
            let mut at = 0;
            let mut ops = ops;
            for _ in 0..n {
                let want = all.get(at);
                if r.current().ok() != want.map(|(_, c)| c) {
                    return Err(format!("current is {:?} at {at}", r.current()));
                }
                if r.peek().ok() != all.get(at + 1).map(|(_, c)| c) {
                    return Err(format!("look-ahead is {:?} at {at}", r.peek()));
                }
                if let Some((i, _)) = want {
                    if r.current_start() != i + offset {
                        return Err(format!("start is {}, expected {}", r.current_start(), i + offset));
                    }
                }
                if ops & 1 == 0 {
                    let c = r.consume().ok();
                    if c.as_ref() != want.map(|(_, c)| c) {
                        return Err(format!("consumed {c:?} at {at}"));
                    }
                    at = (at + 1).min(all.len());
                } else {
                    let wide = |c: &char| !c.is_ascii();
                    let text = r.read_while(wide).map_err(|e| format!("{e:?}"))?;
                    let want: String = all[at..].iter().map(|(_, c)| *c).take_while(wide).collect();
                    at += want.chars().count();
                    if text != want {
                        return Err(format!("read {text:?}, expected {want:?}"));
                    }
                }
                ops >>= 1;
            }
            Ok(())
        });
        if let Err(e) | Ok(Err(e)) = r {
            o.violation(format!("chars:{offset}"), s, e);
        }
    }
}

pub fn case(o: &mut Obs, entry: &str, src: &str) {
    let (kind, rest) = entry.split_once(':').unwrap_or((entry, ""));
    if kind == "chars" {
        return chars(o, src, rest.parse().unwrap_or(0), 8);
    }
    let mut m = start(src, kind == "module");
    let mut ops = vec![];
    for op in rest.split(',').filter_map(|x| x.parse().ok()) {
        if !m.apply(op) {
            return;
        }
        ops.push(op);
    }
    histories(o, &m, &mut ops, if rest.is_empty() { 5 } else { 0 });
}
