//! The layout of pretty-printed text: where its lines begin and how far they are indented, from the
//! reference's reading of that text.
use crate::check::{entry_of, Run};
use crate::engine::{Obs, World};
use crate::gen::generate;
use crate::grammar::entry_name;
use crate::imp::{self, Imp};
use crate::node::N;
use crate::refjs::{self, Entry};
use crate::terms;
use std::collections::BTreeMap;

struct Layout<'a> {
    out: &'a str,
    tokens: &'a [(usize, usize)],
    /// Where lines have to begin, and the column.
    lines: BTreeMap<usize, usize>,
    /// Of these, what an empty line stands in front of.
    apart: Vec<usize>,
    /// Blocks, bodies and classes with nothing in them.
    empty: Vec<usize>,
}

const STEP: usize = 4;

impl Layout<'_> {
    fn line(&mut self, at: usize, level: usize) {
        self.lines.insert(at, level * STEP);
    }

    fn text(&self, i: usize) -> &str {
        let (s, e) = self.tokens[i];
        &self.out[s..e]
    }

    /// The first token at or after `at`.
    fn token(&self, at: usize) -> usize {
        self.tokens.partition_point(|t| t.0 < at)
    }

    /// `start` tells whether the items open a block or text.
    fn items(&mut self, items: &[N], level: usize, start: bool) {
        for (k, i) in items.iter().enumerate() {
            // A method's range does not include `static`.
            let t = self.token(i.s as usize);
            let first = if i.k == "Method" && self.text(t - 1) == "static" { self.tokens[t - 1].0 } else { i.s as usize };
            self.line(first, level);
            if i.k == "FnDecl" && !(start && k == 0) {
                self.apart.push(i.s as usize);
            }
            self.walk(i, level);
        }
    }

    /// The list of a program or body whose first token is `first`.
    fn list(&mut self, items: &[N], first: usize, level: usize) {
        let n = items.iter().take_while(|i| i.k == "Dir").count();
        let mut t = first;
        for _ in 0..n {
            self.line(self.tokens[t].0, level);
            t += 1;
            if t < self.tokens.len() && self.text(t) == ";" {
                t += 1;
            }
        }
        self.items(&items[n..], level, n == 0);
    }

    /// What ends with the closing brace at the end of `n`.
    fn braces(&mut self, n: &N, empty: bool, level: usize) {
        let close = n.e as usize - 1;
        if empty {
            self.empty.push(close);
        } else {
            self.line(close, level);
        }
    }

    fn walk(&mut self, n: &N, level: usize) {
        match n.k {
            "Script" | "Module" => self.list(&n.c, 0, level),
            "Block" => {
                self.items(&n.c, level + 1, true);
                self.braces(n, n.c.is_empty(), level);
            }
            "Body" => {
                self.list(&n.c, self.token(n.s as usize) + 1, level + 1);
                self.braces(n, n.c.is_empty(), level);
            }
            "Class" | "ClassDecl" => {
                for c in &n.c[..2] {
                    self.walk(c, level);
                }
                self.items(&n.c[2..], level + 1, true);
                self.braces(n, n.c.len() == 2, level);
            }
            "Switch" => {
                self.walk(&n.c[0], level);
                for case in &n.c[1..] {
                    self.line(case.s as usize, level + 1);
                    self.walk(&case.c[0], level + 1);
                    self.items(&case.c[1..], level + 2, false);
                }
                self.braces(n, n.c.len() == 1, level);
            }
            "If" => {
                self.walk(&n.c[0], level);
                self.line(n.c[1].s as usize, level + 1);
                self.walk(&n.c[1], level + 1);
                if n.c[2].has_span() {
                    let t = self.token(n.c[2].s as usize) - 1;
                    self.line(self.tokens[t].0, level);
                    self.line(n.c[2].s as usize, level + 1);
                    self.walk(&n.c[2], level + 1);
                }
            }
            "DoWhile" => {
                self.walk(&n.c[0], level);
                let t = self.token(n.c[0].e as usize);
                let t = if self.text(t) == ";" { t + 1 } else { t };
                self.line(self.tokens[t].0, level);
                self.walk(&n.c[1], level);
            }
            "Var" => {
                let first = n.c[0].s as usize;
                let start = self.out[..first].rfind('\n').map_or(0, |i| i + 1);
                let column = self.out[start..first].chars().count();
                for (i, d) in n.c.iter().enumerate() {
                    if i > 0 && n.c[i - 1].c[1].has_span() {
                        self.lines.insert(d.s as usize, column);
                    }
                    self.walk(d, level);
                }
            }
            _ => {
                for c in &n.c {
                    self.walk(c, level);
                }
            }
        }
    }

    fn check(&self) -> Result<(), String> {
        let mut end = 0;
        for (i, &(s, e)) in self.tokens.iter().enumerate() {
            let gap = &self.out[end..s];
            let want = self.lines.get(&s);
            let at = |w: String| Err(format!("at {s}: {w}"));
            match gap.rfind('\n') {
                _ if i == 0 => {
                    if !gap.is_empty() {
                        return at("the text starts with white space".into());
                    }
                }
                None => {
                    if let Some(c) = want {
                        return at(format!("{:?} does not begin a line (indented by {c})", self.text(i)));
                    }
                    if gap.len() > 1 || !gap.is_empty() && gap != " " || !gap.is_empty() && self.empty.contains(&s) {
                        return at(format!("{gap:?} stands in front of {:?}", self.text(i)));
                    }
                }
                Some(n) => {
                    let Some(&c) = want else { return at(format!("{:?} begins a line", self.text(i))) };
                    let blank = self.apart.contains(&s);
                    if n != blank as usize || !gap.starts_with(if blank { "\n\n" } else { "\n" }) || gap[n + 1..] != " ".repeat(c) {
                        return at(format!("{gap:?} stands in front of {:?}, expected an indentation of {c}", self.text(i)));
                    }
                }
            }
            end = e;
        }
        Ok(())
    }
}

/// How the text breaks the layout.
fn broken(out: &str, entry: Entry, module: bool) -> Option<String> {
    let (r, tokens) = refjs::parse_tokens(out, entry, module);
    let tree = r.tree?;
    if tokens.is_empty() {
        return (!out.is_empty()).then(|| "an empty program is not empty".into());
    }
    let mut l = Layout { out, tokens: &tokens, lines: BTreeMap::new(), apart: vec![], empty: vec![] };
    match entry {
        Entry::Stmt => l.items(std::slice::from_ref(&tree), 0, true),
        _ => l.walk(&tree, 0),
    }
    if let Err(w) = l.check() {
        return Some(w);
    }
    let rest = &out[tokens.last().unwrap().1..];
    let want = if entry == Entry::Expr { "" } else { "\n" };
    (rest != want).then(|| format!("the text ends with {rest:?}"))
}

pub fn one(o: &mut Obs, src: &str, entry: Entry, module: bool) {
    let name = entry_name(entry);
    o.start(name, src);
    let mut t = match imp::parse(src, entry, module) {
        Imp::Tree(t) => t,
        _ => {
            o.counts.rejected += 1;
            o.done();
            return;
        }
    };
    o.counts.accepted += 1;
    o.counts.replays += 1;
    o.sample(src);
    match imp::guard(|| generate(&mut t, false)) {
        Err(p) => o.violation(name, src, format!("panic: {p}")),
        Ok(out) => {
            if let Some(w) = broken(&out, entry, module) {
                o.violation(name, src, format!("{out:?}: {w}"));
            }
        }
    }
    o.done();
}

pub fn run(run: &mut Run) {
    crate::many::each(run, one);
    let size = run.pick(3, 4);
    terms::explore(run, &terms::SCRIPT, size, |o, s| one(o, s, Entry::Script, false));
    terms::explore(run, &terms::MODULE, size, |o, s| one(o, s, Entry::Module, true));
    terms::explore(run, &terms::EXPR, size - 1, |o, s| one(o, s, Entry::Expr, false));
    let quick = run.quick();
    run.worlds(crate::worlds::GEN, |w| if quick { w.quick } else { w.thorough }, &|o, w: &World, s, _| one(o, s, w.entry(), w.module));
    run.worlds(crate::worlds::WIDE, |w| w.quick, &|o, w: &World, s, _| one(o, s, w.entry(), w.module));
    for (_, ws) in crate::groups() {
        let cut = run.pick(1, 0);
        run.worlds(ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, _| one(o, s, w.entry(), w.module));
    }
}

pub fn case(o: &mut Obs, entry: &str, src: &str) {
    let (e, m) = entry_of(entry);
    one(o, src, e, m);
}
