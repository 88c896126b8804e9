//! The entry points against each other: a statement or expression on its own, inside a program,
//! in a list, and as script and module.
use crate::check::{entry_of, Run};
use crate::engine::{Obs, World};
use crate::grammar::{self, entry_name};
use crate::imp::{self, Imp};
use crate::node::N;
use crate::refjs::{self, Entry};
use crate::terms;
use std::sync::Mutex;

fn shifted(n: &N, by: i64) -> N {
    let mut m = n.clone();
    if n.has_span() {
        m.s = (n.s as i64 + by) as u32;
        m.e = (n.e as i64 + by) as u32;
    }
    m.c = n.c.iter().map(|c| shifted(c, by)).collect();
    m
}

fn get(o: &mut Obs, src: &str, entry: Entry, module: bool) -> Result<N, String> {
    o.start(entry_name(entry), src);
    let r = imp::parse(src, entry, module);
    o.done();
    o.counts.replays += 1;
    match r {
        Imp::Tree(t) => {
            o.counts.accepted += 1;
            Ok(t.tree())
        }
        Imp::Rejected(e) => {
            o.counts.rejected += 1;
            Err(format!("rejected ({e})"))
        }
        Imp::Panicked(p) => Err(format!("panic: {p}")),
    }
}

fn derives(src: &str, entry: Entry, module: bool) -> Option<N> {
    let r = refjs::parse_mode(src, entry, module);
    r.tree.filter(|_| !r.unclaimed)
}

/// The tree differs from the grammar's only by a listed deviation (they depend on the surroundings).
fn deviates(src: &str, entry: Entry, module: bool, want: &N, got: &N) -> bool {
    !want.same_shape(got) && grammar::explained(src, entry, module, got).is_some()
}

/// The node of this kind and range.
fn find<'a>(n: &'a N, k: &str, s: u32, e: u32) -> Option<&'a N> {
    if n.k == k && n.s == s && n.e == e {
        return Some(n);
    }
    n.c.iter().find_map(|c| find(c, k, s, e))
}

/// Every statement and expression of a program, parsed on its own.
fn parts(o: &mut Obs, src: &str, entry: Entry, module: bool) {
    o.counts.states += 1;
    let Some(want) = derives(src, entry, module) else { return };
    let first = get(o, src, entry, module);
    if get(o, src, entry, module) != first {
        return o.violation(entry_name(entry), src, "parsed twice with different results");
    }
    let Ok(tree) = first else { return };
    if deviates(src, entry, module, &want, &tree) {
        return;
    }
    o.sample(src);
    each_part(o, src, entry, module, &want, &tree);
    // The first statement, with the rest behind it.
    if entry != Entry::Expr && !want.c.is_empty() && want.c[0].k != "Dir" {
        if let (Some(w), Some(t)) = (derives(src, Entry::Stmt, module), tree.c.first()) {
            if w.same_shape(&want.c[0]) {
                same(o, src, src, Entry::Stmt, module, t);
            }
        }
    }
}

fn same(o: &mut Obs, whole: &str, src: &str, entry: Entry, module: bool, want: &N) {
    o.counts.states += 1;
    o.counts.transitions += 1;
    match get(o, src, entry, module) {
        Ok(t) if t == *want => {}
        Ok(t) => o.violation(entry_name(entry), src, format!("parsed alone: {}\n      in {whole:?}: {}", t.show_spans(), want.show_spans())),
        Err(e) => o.violation(entry_name(entry), src, format!("{e}\n      in {whole:?}: {}", want.show_spans())),
    }
}

fn each_part(o: &mut Obs, src: &str, entry: Entry, module: bool, want: &N, tree: &N) {
    for w in &want.c {
        if w.has_span() && (w.s as usize, w.e as usize) != (0, src.len()) {
            let text = &src[w.s as usize..w.e as usize];
            if let Some(t) = find(tree, w.k, w.s, w.e) {
                let t = shifted(t, -(w.s as i64));
                for e in [Entry::Expr, Entry::Stmt] {
                    if derives(text, e, module).is_some_and(|d| d.same_shape(w)) {
                        same(o, src, text, e, module, &t);
                    }
                }
            }
        }
        each_part(o, src, entry, module, w, tree);
    }
}

const EXPR_IN: &[(&str, &str)] = &[
    ("(", ")"), ("x = (", ")"), ("f((", "))"), ("if (", ") ;"), ("while (", ") {}"), ("switch (", ") {}"), ("throw (", ")"), ("throw ", ""), ("a[", "]"), ("`${", "}`"), ("`h${", "}m${a}t`"), ("for (;", ";) ;"), ("for (;;", ") ;"), ("for (x in ", ") ;"),
    ("do ; while (", ")"), ("with (", ") ;"), ("switch (a) { case ", ": }"), ("function f() { return ", "}"), ("a ? (", ") : b"), ("({ [(", ")]: 1 })"), ("class C { [(", ")]() {} }"), ("() => (", ")"), ("let y = (", ")"), ("a?.[", "]"), ("new (", ")"), ("import((", "))"),
    ("(", ").x"), ("(", ")`t`"), ("!(", ")"), ("[(", ")]"), ("({ ...(", ") })"), ("function f(a = (", ")) {}"), ("let { a = (", ") } = b"), ("x => { if (", ") ; }"), ("// c\n(", ")"), ("a\n;(", ")"),
];
const STMT_IN: &[(&str, &str)] = &[
    ("{ ", " }"), ("if (a) { ", " }"), ("if (a) ; else { ", " }"), ("while (a) { ", " }"), ("do { ", " } while (a)"), ("for (;;) { ", " }"), ("for (a of b) { ", " }"), ("try { ", " } catch {}"), ("try {} catch (e) { ", " }"), ("try {} finally { ", " }"),
    ("switch (a) { case 1: ", " }"), ("switch (a) { default: ", " }"), ("function f() { ; ", " }"), ("(function () { ; ", " })"), ("() => { ; ", " }"), ("({ m() { ; ", " } })"), ("class C { m() { ; ", " } }"), ("l: { ", " }"), ("; ", ""), ("a;\n", "\n;b"), ("`${function () { ; ", " }}`"),
    ("{ ", "\n}"), ("({ get m() { ; ", " } })"), ("async function f() { ; ", " }"), ("with (a) { ", " }"), ("{} ", " {}"), ("export default function () { ; ", " }"),
];

/// The same text at every place that takes it.
fn embedded(o: &mut Obs, src: &str, entry: Entry, module: bool) {
    o.counts.states += 1;
    let Some(alone) = derives(src, entry, module) else { return };
    if alone.e as usize != src.len() {
        return;
    }
    let Ok(tree) = get(o, src, entry, module) else { return };
    if deviates(src, entry, module, &alone, &tree) {
        return;
    }
    let top = if module { Entry::Module } else { Entry::Script };
    for (a, b) in if entry == Entry::Expr { EXPR_IN } else { STMT_IN } {
        let text = format!("{a}{src}{b}");
        o.counts.states += 1;
        o.counts.transitions += 1;
        let Some(whole) = derives(&text, top, module) else { continue };
        let (s, e) = (a.len() as u32, (a.len() + src.len()) as u32);
        let Some(there) = find(&whole, alone.k, s, e) else { continue };
        if !there.same_shape(&alone) {
            continue;
        }
        o.sample(&text);
        let want = shifted(&tree, s as i64);
        match get(o, &text, top, module) {
            Ok(t) => match find(&t, want.k, s, e) {
                Some(n) if *n == want => {}
                Some(n) if deviates(&text, top, module, &whole, &t) && !n.same_shape(&want) => {}
                n => o.violation(entry_name(top), &text, format!("{:?} alone: {}\n      here {}", src, want.show_spans(), n.unwrap_or(&t).show_spans())),
            },
            Err(e) => o.violation(entry_name(top), &text, format!("{e}; {src:?} alone: {}", want.show_spans())),
        }
    }
}

/// Two texts after one another, in one program.
fn joined(o: &mut Obs, a: &str, b: &str, module: bool) {
    let top = if module { Entry::Module } else { Entry::Script };
    for sep in ["\n", ";", "\n;\n", " "] {
        let text = format!("{a}{sep}{b}");
        let gap = a.len() + sep.len();
        o.counts.states += 1;
        o.counts.transitions += 1;
        let (Some(x), Some(y), Some(z)) = (derives(a, top, module), derives(b, top, module), derives(&text, top, module)) else { continue };
        let extra = z.c.len().wrapping_sub(x.c.len() + y.c.len());
        // Only where the grammar itself reads one after the other.
        let n = x.c.len();
        let list = extra <= 1
            && z.c[..n].iter().zip(&x.c).all(|(p, q)| p.same_shape(q))
            && z.c[n + extra..].iter().zip(&y.c).all(|(p, q)| p.same_shape(q))
            && z.c[n..n + extra].iter().all(|e| e.k == "Empty");
        if !list || [(&x, a), (&y, b)].iter().any(|(w, s)| get(o, s, top, module).map_or(true, |t| deviates(s, top, module, w, &t))) {
            continue;
        }
        o.sample(&text);
        let (Ok(p), Ok(q)) = (get(o, a, top, module), get(o, b, top, module)) else { continue };
        match get(o, &text, top, module) {
            Err(e) => o.violation(entry_name(top), &text, format!("{e}; each of {a:?} and {b:?} is accepted")),
            Ok(r) => {
                let mut bad = r.c.len() != p.c.len() + q.c.len() + extra;
                if !bad {
                    let k = p.c.len();
                    // The end of the last statement moves when the separator is its semicolon.
                    bad = r.c[..k].iter().zip(&p.c).any(|(u, v)| if sep.contains(';') { !u.same_shape(v) } else { u != v })
                        || r.c[k + extra..].iter().zip(&q.c).any(|(u, v)| *u != shifted(v, gap as i64));
                }
                if bad {
                    o.violation(entry_name(top), &text, format!("{}\n      {a:?} alone {}\n      {b:?} alone {}", r.show_spans(), p.show_spans(), q.show_spans()));
                }
            }
        }
    }
}

/// Strict script text against the same text as a module.
fn modes(o: &mut Obs, src: &str) {
    let text = format!("'use strict';{src}");
    o.counts.states += 1;
    o.counts.transitions += 1;
    let (s, m) = (refjs::parse_mode(&text, Entry::Script, false), refjs::parse_mode(&text, Entry::Module, true));
    if s.unclaimed || m.unclaimed {
        return;
    }
    let agree = match (&s.tree, &m.tree) {
        (Some(a), Some(b)) => a.c.len() == b.c.len() && a.c.iter().zip(&b.c).all(|(x, y)| x.same_shape(y)),
        (None, None) => true,
        _ => false,
    };
    if !agree {
        return;
    }
    let (a, b) = (get(o, &text, Entry::Script, false), get(o, &text, Entry::Module, true));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a.c != b.c {
                o.violation("module", &text, format!("as a script {}\n      as a module {}", a.show_spans(), b.show_spans()));
            }
        }
        (Err(_), Err(_)) => {}
        (a, b) => o.violation("module", &text, format!("as a script {:?}\n      as a module {:?}", a.map(|t| t.show()), b.map(|t| t.show()))),
    }
}

fn collect(sig: &'static terms::Signature, n: usize) -> Vec<String> {
    let all = Mutex::new(vec![]);
    let mut quiet = Run::new("P16", crate::check::Tier::Quick);
    terms::explore(&mut quiet, sig, n, |_, s| all.lock().unwrap().push(s.to_string()));
    let mut v = all.into_inner().unwrap();
    v.sort();
    v.dedup();
    v
}

pub fn run(run: &mut Run) {
    let size = run.pick(3, 4);
    terms::explore(run, &terms::SCRIPT, size, |o, s| {
        parts(o, s, Entry::Script, false);
        modes(o, s);
    });
    terms::explore(run, &terms::MODULE, size, |o, s| parts(o, s, Entry::Module, true));
    terms::explore(run, &terms::EXPR, size - 1, |o, s| {
        parts(o, s, Entry::Expr, false);
        embedded(o, s, Entry::Expr, false);
        embedded(o, s, Entry::Expr, true);
    });
    terms::explore(run, &terms::SCRIPT, size - 1, |o, s| embedded(o, s, Entry::Stmt, false));
    terms::explore(run, &terms::MODULE, size - 1, |o, s| embedded(o, s, Entry::Stmt, true));
    for (sig, module) in [(&terms::SCRIPT, false), (&terms::MODULE, true)] {
        let one = collect(sig, 1);
        let two = if run.quick() { one.clone() } else { collect(sig, 2) };
        run.each("pairs", &format!("every ordered pair of {} and {} programs, {} separators", two.len(), one.len(), 4), &two, |o, a| {
            for b in &one {
                joined(o, a, b, module);
                if two.len() != one.len() {
                    joined(o, b, a, module);
                }
            }
        });
    }
    let cut = run.pick(2, 1);
    for (_, ws) in crate::groups() {
        run.worlds(ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, r| {
            if r.tree.is_some() {
                parts(o, s, w.entry(), w.module);
            }
            modes(o, s);
        });
    }
    run.assumptions.push("where a text may stand, and whether its surroundings change its meaning, is decided by the reference grammar; the trees compared are the implementation's own".into());
}

pub fn case(o: &mut Obs, entry: &str, src: &str) {
    let (e, m) = entry_of(entry);
    parts(o, src, e, m);
    if m {
        modes(o, src.trim_start_matches("'use strict';"));
    }
    let r = refjs::parse_mode(src, e, m);
    grammar::compare_at(o, src, e, m, &r, &grammar::Mode::Spans);
}
