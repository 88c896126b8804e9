//! Code generation: what is printed must parse to the same tree.
use crate::check::{entry_of, Run};
use crate::conv;
use crate::engine::{Obs, World};
use crate::grammar::entry_name;
use crate::imp::{self, Ast, Imp};
use crate::refjs::Entry;
use crate::terms;
use fajt_codegen::{generate_code, GeneratorContext};

pub fn generate(t: &mut Ast, minified: bool) -> String {
    let mut ctx = GeneratorContext::new();
    ctx.minified = minified;
    match t {
        Ast::P(p) => generate_code(p, ctx),
        Ast::S(s) => generate_code(s, ctx),
        Ast::E(e) => generate_code(e, ctx),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Pretty,
    Minified,
    Fixpoint,
}

/// A directive written with escapes that spells `use strict` (its tree cannot be told from the real one).
fn escaped_use_strict(src: &str) -> bool {
    let mut i = 0;
    while let Some(p) = src[i..].find(['\'', '"']) {
        if let Ok((n, v)) = crate::reflex::string(&src[i + p..]) {
            if n > 12 && v.as_deref() == Some("use strict") {
                return true;
            }
        }
        i += p + 1;
    }
    false
}

/// Without the empty statements at the end of a list, which minified output may leave out.
fn trimmed(n: &crate::node::N) -> crate::node::N {
    let mut n = crate::node::N { c: n.c.iter().map(trimmed).collect(), ..n.clone() };
    if matches!(n.k, "Script" | "Module" | "Block" | "Body" | "Case") {
        while n.c.last().is_some_and(|c| c.k == "Empty") {
            n.c.pop();
        }
    }
    n
}

pub fn round_trip(o: &mut Obs, src: &str, entry: Entry, module: bool, what: What) {
    o.start(entry_name(entry), src);
    round_trip_started(o, src, entry, module, what);
    o.done();
}

fn round_trip_started(o: &mut Obs, src: &str, entry: Entry, module: bool, what: What) {
    let name = entry_name(entry);
    let mut t = match imp::parse(src, entry, module) {
        Imp::Tree(t) => t,
        _ => {
            o.counts.rejected += 1;
            return;
        }
    };
    o.counts.accepted += 1;
    o.sample(src);
    let first = t.tree();
    for minified in [false, true] {
        if what == What::Pretty && minified || what == What::Minified && !minified {
            continue;
        }
        let style = if minified { "minified" } else { "pretty" };
        o.counts.replays += 1;
        let out = match imp::guard(|| generate(&mut t, minified)) {
            Ok(s) => s,
            Err(p) => {
                o.violation(name, src, format!("{style}: panic: {p}"));
                continue;
            }
        };
        let after = t.tree();
        if after != first {
            o.violation(name, src, format!("{style}: printing changes the tree:\n  was {}\n  now {}", first.show(), after.show()));
        }
        let again = imp::parse(&out, entry, module);
        let mut second = match again {
            Imp::Tree(t) => t,
            Imp::Rejected(e) => {
                if what != What::Fixpoint {
                    if escaped_use_strict(src) {
                        o.counts.known("escaped-directive", src);
                    } else if method_in_generator(&first, src, entry, module) {
                        o.counts.known("method-in-generator", src);
                    } else {
                        o.violation(name, src, format!("{style} {out:?} is rejected: {e}"));
                    }
                }
                continue;
            }
            Imp::Panicked(p) => {
                o.violation(name, src, format!("{style} {out:?}: panic: {p}"));
                continue;
            }
        };
        let tree = second.tree();
        let same = if minified { trimmed(&first).same_shape(&trimmed(&tree)) } else { first.same_shape(&tree) };
        if !same {
            if what != What::Fixpoint {
                if method_in_generator(&first, src, entry, module) {
                    o.counts.known("method-in-generator", src);
                } else {
                    o.violation(name, src, format!("{style} {out:?} differs:\n  was {}\n  now {}", first.show(), tree.show()));
                }
            }
            continue;
        }
        if what != What::Fixpoint {
            continue;
        }
        let out2 = generate(&mut second, minified);
        if out2 != out && !(minified && trimmed(&first) != first) {
            o.violation(name, src, format!("{style} {out:?} formats again to {out2:?}"));
        }
        if minified {
            lean(o, src, &out, entry, module, &tree, trimmed(&first) == first);
        }
    }
}

/// No white space and no last semicolon of the minified text can be taken out without changing its meaning.
fn lean(o: &mut Obs, src: &str, out: &str, entry: Entry, module: bool, tree: &crate::node::N, no_empty_end: bool) {
    for (i, c) in out.char_indices() {
        let (before, after) = (out[..i].chars().last(), out[i + c.len_utf8()..].chars().next());
        if no_empty_end && c == ';' && matches!(after, None | Some('}')) && before != Some(')') {
            let shorter = format!("{}{}", &out[..i], &out[i + 1..]);
            if let Imp::Tree(t) = imp::parse(&shorter, entry, module) {
                if t.tree().same_shape(tree) {
                    o.violation(entry_name(entry), src, format!("minified {out:?} has a semicolon to spare at {i}"));
                    return;
                }
            }
        }
        if !c.is_whitespace() {
            continue;
        }
        // Words and operators may be kept apart without looking further.
        if before == after && matches!(before, Some('+' | '-' | '/')) || before == Some('!') && after == Some('-') || before.is_some_and(|b| b.is_alphanumeric()) {
            continue;
        }
        let shorter = format!("{}{}", &out[..i], &out[i + c.len_utf8()..]);
        if let Imp::Tree(t) = imp::parse(&shorter, entry, module) {
            if t.tree().same_shape(tree) {
                o.violation(entry_name(entry), src, format!("minified {out:?} has white space to spare at {i}"));
                return;
            }
        }
    }
}

/// The tree has a plain method marked as generator, in exactly the way of the finding.
fn method_in_generator(first: &crate::node::N, src: &str, entry: Entry, module: bool) -> bool {
    crate::grammar::explained(src, entry, module, first).is_some_and(|ids| ids.contains("method-in-generator"))
}

pub fn run(run: &mut Run, what: What) {
    // Every white space of the output is taken out for `Fixpoint`, which is quadratic.
    let longest = if what == What::Fixpoint { 9 } else { run.pick(16, 17) as u32 };
    crate::many::up_to(run, longest, |o, s, e, m| round_trip(o, s, e, m, what));
    let size = run.pick(3, 4);
    terms::explore(run, &terms::SCRIPT, size, |o, s| round_trip(o, s, Entry::Script, false, what));
    terms::explore(run, &terms::MODULE, size, |o, s| round_trip(o, s, Entry::Module, true, what));
    terms::explore(run, &terms::EXPR, size - 1, |o, s| round_trip(o, s, Entry::Expr, false, what));
    let quick = run.quick();
    run.worlds(crate::worlds::GEN, |w| if quick { w.quick } else { w.thorough }, &|o, w: &World, s, _| {
        round_trip(o, s, w.entry(), w.module, what)
    });
    for (_, ws) in crate::groups() {
        let cut = run.pick(1, 0);
        run.worlds(ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, _| round_trip(o, s, w.entry(), w.module, what));
    }
}

pub fn case(o: &mut Obs, entry: &str, src: &str, what: What) {
    let (e, m) = entry_of(entry);
    round_trip(o, src, e, m, what);
}

#[allow(dead_code)]
fn unused() {
    let _ = conv::program;
}
